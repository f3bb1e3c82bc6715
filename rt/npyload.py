"""C21: find_npy_files, load_npy, load_npy_concatenated."""
import os

import numpy as np

from crowddynamics.io import load_npy, load_npy_concatenated, find_npy_files
from rt.scratch import scratch

RULE = ('reader: directories with the files of one recording (numbers of one to three digits, gaps, subdirectories) among '
        'files of other names, many of which differ from the recording only slightly and hold no array at all; non-trivial '
        'when there is something to read; distinct by value.')
BASES = ['a', 'agents', 'a.b', 'a+b', 'a(b', 'a[0]', 'x_1', 'a_', 'A', 'a b', 'a*', '^a$', 'a\\d', 'a|b', '_', '1']


def others(b):
    return ['x' + b + '_1.npy', b + '_1.npy.bak', b + '_1.npyx', b + '_x.npy', b + '_.npy', b + '.npy', b + '_1_2.npy',
            b + '1.npy', b + '_1.csv', b + '_-1.npy', b + '_1 .npy', b + '_1xnpy', b + '__1.npy', 'note.txt', b + '_1.npy\n',
            b.replace('.', 'x').replace('+', 'a') + 'z_3.npy', b.upper() + 'Q_1.npy', b + '_1.5.npy', b + '_0x1.npy', b + '_1.NPY']


def cases(rng, tier):
    for b in BASES:
        yield dict(base=b, files=[['', k] for k in (0, 1, 2, 10, 11, 9, 100)], other=others(b))
    while True:
        b = rng.choice(BASES)
        nums = rng.sample(list(range(12)) + [19, 20, 21, 99, 100, 101, 110, 999, 1000], rng.randint(0, 14))
        if rng.random() < 0.03:
            nums = rng.sample(range(300), 150)
        dirs = ['', '', '', 'sub', 'sub/deep', b + '_5000.npy', 'z']
        yield dict(base=b, files=[[rng.choice(dirs), k] for k in nums],
                   other=rng.sample(others(b), rng.randint(0, 6)), deep=rng.random() < 0.3)


def nontrivial(case):
    return len(case['files']) > 0


def run(case):
    import re
    b = case['base']
    exact = re.compile(re.escape(b) + r'_[0-9]+\.npy\Z')
    with scratch() as d:
        want = {}
        for sub, k in case['files']:
            p = os.path.join(d, sub)
            os.makedirs(p, exist_ok=True)
            f = os.path.join(p, '%s_%d.npy' % (b, k))
            a = np.array([[float(k), 1.0], [k + 0.5, 2.0]])
            np.save(f, a)
            want[k] = (f, a)
        for o in case['other']:
            if exact.match(o):
                continue
            for p in (d, os.path.join(d, 'sub')) if case.get('deep') else (d,):
                os.makedirs(p, exist_ok=True)
                if not os.path.isdir(os.path.join(p, o)):
                    with open(os.path.join(p, o), 'w') as fp:
                        fp.write('no array')
        keys = sorted(want)
        bad = []
        found = sorted((i, os.path.realpath(f)) for i, f in find_npy_files(d, b))
        if found != [(k, os.path.realpath(want[k][0])) for k in keys]:
            bad.append(('exactly the files of the recording are found', '%s, not %s' % (found, keys)))
        got = list(load_npy(d, b))
        if len(got) != len(keys) or not all(np.array_equal(x, want[k][1]) for x, k in zip(got, keys)):
            bad.append(('arrays are read in increasing numeric order', '%s, not %s' % ([x[0][0] for x in got], keys)))
        if keys:
            c = load_npy_concatenated(d, b)
            if not np.array_equal(c, np.vstack([want[k][1] for k in keys])):
                bad.append(('concatenation stacks the arrays in that order', str(c[:, 0].tolist())))
        return bad
