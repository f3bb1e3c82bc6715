"""C32: find_nearest_neighbors."""
import math

import numpy as np

from cell_lists import add_to_cells, neighboring_cells
from crowddynamics.core.steering.collective_motion import find_nearest_neighbors, MISSING_NEIGHBOR
from rt.crowd import *

RULE = ('neighbour tables: crowds of up to 10 agents, up to 4 walls, sight ranges around the typical distance, tables of 1 to 5 '
        'entries, every pair in neighbouring cells presented as candidate; non-trivial when some table cannot hold all '
        'candidates; cases in which a comparison is closer than 1e-7 are not judged; distinct by value.')


def cases(rng, tier):
    while True:
        n = rng.randint(1, 10) if rng.random() < 0.95 else rng.randint(20, 60)
        span = rng.choice((1.0, 3.0, 8.0))
        yield dict(pos=rnd_points(rng, n, span), walls=rnd_walls(rng, span, 4), k=rng.randint(1, 5) if rng.random() < 0.95 else 12,
                   sight=span * rng.choice((0.3, 0.7, 1.2, 3.0)))


def nontrivial(case):
    return len(case['pos']) > case['k'] + 1


def run(case):
    p = np.array(case['pos'], dtype=float)
    n, k, sight = len(p), case['k'], case['sight']
    walls = walls_array(case['walls'])
    pi, cc, co, shape = add_to_cells(p, sight)
    t = find_nearest_neighbors(p, sight, k, np.arange(len(cc)), neighboring_cells(shape), pi, cc, co, walls)
    if t.shape != (n, k):
        return [('one row of k entries per agent', str(t.shape))]
    bad = []
    try:
        for i in range(n):
            c = []
            for j in range(n):
                if j != i and not (math.dist(p[i], p[j]) > sight * 1.5) and lt(math.dist(p[i], p[j]), sight) \
                        and not hidden(p[i], p[j], case['walls']):
                    c.append((math.dist(p[i], p[j]), j))
            c.sort()
            if len(c) > k:
                lt(c[k - 1][0], c[k][0])
            want = sorted(j for _, j in c[:k])
            got = sorted(int(j) for j in t[i] if j != MISSING_NEIGHBOR)
            if got != want:
                bad.append(('the table holds the nearest visible neighbours', 'agent %d: %s, not %s' % (i, got, want)))
    except Close:
        return []
    return bad
