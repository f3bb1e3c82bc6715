"""C34: density_classical and _core_2 on crowds up to thousands of agents."""
from collections import defaultdict

import numpy as np

from crowddynamics.core.quantities import density_classical, _core_2

RULE = ('density grids: crowds of 1 to 5 agents, sometimes of 400 or 70000 in few cells, cell sizes 0.3 to 2 and areas of '
        'the agents; non-trivial when two agents share a cell; cases in which a point is closer than 1e-9 cells to a cell '
        'border are not judged; distinct by value.')


def cases(rng, tier):
    big = 0
    while True:
        big += 1
        n = rng.choice((1, 2, 3, 5)) if big % 40 else 400 if big % 200 else 70000
        yield dict(n=n, cell=rng.choice((0.5, 1.0, 2.0, rng.uniform(0.3, 2))), k=rng.choice((1, 2, 3)), seed=rng.randrange(10 ** 6),
                   o=[rng.randint(-5, 5), rng.randint(-5, 5)], api=rng.choice(('classical', 'voronoi')))


def points(case):
    r = np.random.RandomState(case['seed'])
    x = r.uniform(-1, 1, (case['n'], 2))
    # a large crowd is dense around the middle of a cell
    x = case['k'] * x if case['n'] < 300 else 0.5 + case['k'] * x ** 9
    return (np.array(case['o']) + x) * case['cell'], r


def nontrivial(case):
    return case['n'] > 1


def run(case):
    p, r = points(case)
    n, c = case['n'], case['cell']
    q = p / c
    if np.min(np.abs(q - np.round(q))) < 1e-9:
        return []
    ij = [(int(a), int(b)) for a, b in np.floor(q).tolist()]
    x0, y0 = min(i for i, _ in ij), min(j for _, j in ij)
    shape = max(i for i, _ in ij) - x0 + 1, max(j for _, j in ij) - y0 + 1
    b = p.copy()
    if case['api'] == 'classical':
        d = density_classical(p, c)
        per = [c * c / 1.0] * n
    else:
        area = r.uniform(0.1, 3, n)
        area[r.uniform(size=n) < 0.1] = 0.0
        d = _core_2(p, c, area, r.permutation(n))
        per = area.tolist()
    if tuple(d.shape) != shape:
        return [('the smallest grid that covers all agents', '%s, not %s' % (d.shape, shape))]
    if b.tobytes() != p.tobytes():
        return [('the points stay', '')]
    count, total = defaultdict(int), defaultdict(float)
    for k in range(n):
        count[ij[k]] += 1
        total[ij[k]] += per[k]
    bad = []
    for i in range(shape[0]):
        for j in range(shape[1]):
            e = (i + x0, j + y0)
            a = total[e] if case['api'] == 'voronoi' else c * c
            want = count[e] / a if a > 0 else count[e]
            if not abs(d[i, j] - want) <= 1e-9 * (1 + want):
                bad.append(('the number of agents of the cell divided by its area', 'cell %s: %r, not %r' % (e, float(d[i, j]), want)))
    return bad[:3]
