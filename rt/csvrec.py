"""C22: the CSV recorder."""
import csv
import os
from collections import OrderedDict

from crowddynamics.io import save_csv
from rt.scratch import scratch

RULE = ('CSV recorder: sequences of records with the keys of the first one (text with separators, quotes and line breaks, '
        'numbers, empty values) and dump flags, on one or two recorders; non-trivial when something is dumped; distinct by '
        'value.')
VALS = ['', 'a', 'b,c', 'd"e', 'line\nbreak', "'", ' x ', 0, 1, -3, 0.1, 1e300, True, None, 'é']
KEYS = ['iterations', 'time_tot', 'dt', 'name', 'k,1', 'q"', '']
FLAGS = {'T': True, 'F': False, 'N': None, '1': 1, '0': 0}


def cases(rng, tier):
    import itertools
    for n in range(1, 5):
        for fl in itertools.product('FT', repeat=n):
            yield dict(names=['data'], keys=[['a', 'b']], ops=[[0, [k, 'v%d' % k], f] for k, f in enumerate(fl)])
    while True:
        two = rng.random() < 0.3
        keys = [rng.sample(KEYS, rng.randint(1, 4)) for _ in range(2 if two else 1)]
        ops = []
        long = rng.random() < 0.06
        for _ in range(rng.randint(1, 15) if not long else rng.randint(60, 700)):
            i = rng.randrange(len(keys))
            ops.append([i, [rng.choice(VALS) for _ in keys[i]] if rng.random() < 0.95 else [rng.choice(VALS)] * len(keys[i]),
                        rng.choice('FFTN10') if not long or rng.random() < 0.02 else 'F'])
        yield dict(names=['data', 'meta.data{}'][:len(keys)], keys=keys, ops=ops)


def nontrivial(case):
    return any(FLAGS[o[2]] for o in case['ops'])


def text(v):
    return '' if v is None else str(v)


def run(case):
    with scratch() as d:
        recs = []
        for n in case['names']:
            r = save_csv(d, n)
            r.send(None)
            recs.append(r)
        want = [[] for _ in recs]        # rows that must be in the file
        pend = [[] for _ in recs]
        first = [True for _ in recs]
        live = [OrderedDict() for _ in recs]
        for i, vals, fl in case['ops']:
            rec = live[i]                # the simulation sends the same dictionary again and again
            for k, v in zip(case['keys'][i], vals):
                rec[k] = v
            if first[i]:
                pend[i].append([text(k) for k in case['keys'][i]])
                first[i] = False
            pend[i].append([text(v) for v in vals])
            recs[i].send(rec)
            recs[i].send(FLAGS[fl])
            if FLAGS[fl]:
                want[i] += pend[i]
                pend[i] = []
            exist = sorted(os.listdir(d))
            should = sorted(n + '.csv' for n, w in zip(case['names'], want) if w)
            if exist != should:
                return [('a file exists exactly after a dump', '%s, not %s' % (exist, should))]
            for n, w in zip(case['names'], want):
                if w:
                    with open(os.path.join(d, n + '.csv'), newline='', encoding='utf-8') as fp:
                        got = [r for r in csv.reader(fp)]
                    w = [([] if r == [''] and [] in got else r) for r in w]
                    if got != w:
                        return [('the file holds the header once and every dumped record in order', '%s, not %s' % (got, w))]
    return []
