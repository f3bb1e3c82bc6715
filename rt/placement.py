"""C18: Agents.add_non_overlapping_group."""
import math

import numpy as np

from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.simulation.agents import Agents, AgentGroup, Circular, ThreeCircle

RULE = ('placements: one to three groups of up to 6 circular or three-circle agents (bodies up to half a cell), positions from '
        'a generator or a callable that revisits places, clusters at cell borders, zero to four walls; non-trivial when some '
        'draw has to be rejected; distinct by value.')
EPS = 1e-9


def cases(rng, tier):
    while True:
        kind = rng.choice(('circular', 'three_circle'))
        cell = rng.choice((0.6, 1.0, 2.0))
        half = cell / 2
        groups = []
        span = rng.choice((0.8, 1.5, 3.0)) * cell
        spots = [[rng.uniform(-span, span), rng.uniform(-span, span)] for _ in range(rng.randint(2, 12))]
        for _ in range(rng.randint(1, 3)):
            n = rng.randint(1, 6) if rng.random() < 0.95 else rng.randint(15, 40)
            bodies = []
            for i in range(n):
                if kind == 'circular':
                    bodies.append([rng.choice((half, half * 0.9, half * 0.5, half * rng.uniform(0.1, 1)))])
                else:
                    rt = half * rng.uniform(0.3, 0.8)
                    rs = half * rng.uniform(0.2, 0.5)
                    bodies.append([rt, rs, (half - rs) * rng.choice((1.0, 0.9, 0.5)), rng.uniform(-math.pi, math.pi)])
            draws = []
            for _ in range(12 * n + 5):
                m = rng.random()
                if m < 0.4:
                    p = rng.choice(spots)
                elif m < 0.6:
                    p = [rng.randint(-3, 3) * cell, rng.uniform(-span, span)]
                elif m < 0.8:
                    q = rng.choice(spots)
                    a = rng.uniform(-math.pi, math.pi)
                    p = [q[0] + cell * 0.95 * math.cos(a), q[1] + cell * 0.95 * math.sin(a)]
                else:
                    p = [rng.uniform(-span, span) * 2, rng.uniform(-span, span) * 2]
                draws.append(p)
            groups.append(dict(bodies=bodies, draws=draws, call=rng.random() < 0.5,
                               walls=None if rng.random() < 0.3 else
                               [[rng.uniform(-span, span) for _ in range(4)] for _ in range(rng.randint(0, 4))]))
        yield dict(kind=kind, cell=cell, groups=groups, default=cell == 0.6 and rng.random() < 0.5)


def nontrivial(case):
    return any(len(g['bodies']) > 1 for g in case['groups'])


def discs(kind, row):
    p = np.array(row['position'], dtype=float)
    if kind == 'circular':
        return [(p, float(row['radius']))]
    return [(p, float(row['r_t'])), (np.array(row['position_ls'], float), float(row['r_s'])),
            (np.array(row['position_rs'], float), float(row['r_s']))]


def gap(a, b):
    return min(math.hypot(p[0] - q[0], p[1] - q[1]) - r - s for p, r in a for q, s in b)


def wallgap(a, w):
    out = []
    x0, y0, x1, y1 = w
    dx, dy = x1 - x0, y1 - y0
    for p, r in a:
        l2 = dx * dx + dy * dy
        t = 0 if l2 == 0 else max(0, min(1, ((p[0] - x0) * dx + (p[1] - y0) * dy) / l2))
        out.append(math.hypot(p[0] - x0 - t * dx, p[1] - y0 - t * dy) - r)
    return min(out)


def run(case):
    kind = case['kind']
    cls = Circular if kind == 'circular' else ThreeCircle
    agents = Agents(agent_type=cls) if case.get('default') else Agents(agent_type=cls, cell_size=case['cell'])
    tag = 0
    stored = 0
    for g in case['groups']:
        attrs = []
        for b in g['bodies']:
            tag += 1
            if kind == 'circular':
                attrs.append(dict(radius=b[0], mass=float(tag)))
            else:
                attrs.append(dict(r_t=b[0], r_s=b[1], r_ts=b[2], orientation=b[3], mass=float(tag), radius=b[1] + b[2]))
        group = AgentGroup(size=len(attrs), agent_type=cls, attributes=attrs)
        log = []

        def draw():
            log.append(g['draws'][len(log) % len(g['draws'])])
            return np.array(log[-1])

        def stream():
            while True:
                yield draw()
        walls = None
        if g['walls'] is not None:
            walls = np.zeros(len(g['walls']), dtype=obstacle_type_linear)
            for k, w in enumerate(g['walls']):
                walls[k]['p0'], walls[k]['p1'] = w[:2], w[2:]
        before = agents.array.copy()
        agents.add_non_overlapping_group(group, draw if g['call'] else stream(), obstacles=walls)
        arr = agents.array
        if arr.dtype != cls.dtype() or len(arr) != len(before) + len(attrs):
            return [('storage grows by exactly the group size', '%d -> %d' % (len(before), len(arr)))]
        if arr[:stored].tobytes() != before[:stored].tobytes():
            return [('agents already stored are unchanged', '')]
        new = [k for k in range(stored, len(arr)) if arr[k]['mass'] != 0]
        tags = [int(arr[k]['mass']) for k in new]
        if tags != list(range(tag - len(attrs) + 1, tag - len(attrs) + 1 + len(tags))) or \
                new != list(range(stored, stored + len(new))):
            return [('agents keep the order of the group', 'rows %s hold members %s' % (new, tags))]
        at = 0
        for k, t in zip(new, tags):
            row = arr[k]
            a = attrs[t - (tag - len(attrs)) - 1]
            for n, v in a.items():
                if float(row[n]) != float(v):
                    return [('a stored agent has the attributes of its member', '%s of %d is %s, not %s' % (n, k, row[n], v))]
            p = row['position'].tolist()
            while at < len(log) and log[at] != p:
                at += 1
            if at == len(log):
                return [('agents are stored at drawn positions', '%s' % p)]
            at += 1
            if kind == 'three_circle':
                o = float(row['orientation'])
                t = np.array([math.sin(o), -math.cos(o)]) * float(row['r_ts'])
                if not (np.allclose(row['position_ls'], np.array(p) - t, atol=1e-12) and
                        np.allclose(row['position_rs'], np.array(p) + t, atol=1e-12)):
                    return [('the shoulders are where the stored position and orientation put them',
                             '%s %s at %s' % (row['position_ls'], row['position_rs'], p))]
            d = discs(kind, row)
            for j in range(k):
                if arr[j]['mass'] != 0:
                    h = gap(d, discs(kind, arr[j]))
                    if h < -EPS:
                        return [('stored agents never overlap', 'rows %d and %d by %g' % (j, k, -h))]
            for w in g['walls'] or ():
                h = wallgap(d, w)
                if h < -EPS:
                    return [('a stored agent does not overlap an obstacle', 'row %d by %g' % (k, -h))]
        if len(new) < len(attrs) and any(arr[k].tobytes() != np.zeros(1, arr.dtype).tobytes()
                                         for k in range(stored + len(new), len(arr))):
            return [('rejected draws leave no trace', 'row %d' % (stored + len(new)))]
        if len(new) < len(attrs):
            return []          # storage with unplaced members is not continued
        stored += len(new)
    return []
