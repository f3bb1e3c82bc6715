"""C16, C17: placing single bodies and asking them for overlaps."""
import math

import numpy as np

from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.simulation.agents import Circular, ThreeCircle
from rt.placement import discs, gap, wallgap

RULE = ('single bodies: a circular or three-circle agent placed one to three times and asked for overlaps with up to five '
        'others and up to three walls, near and far, bodies with thick or thin shoulders; non-trivial when there are others; '
        'gaps below 1e-9 are not judged; distinct by value.')


def cases(rng, tier):
    while True:
        kind = rng.choice(('circular', 'three_circle'))
        span = rng.choice((0.3, 0.8, 2.0))
        at = lambda: [rng.uniform(-span, span), rng.uniform(-span, span)]

        def body():
            if kind == 'circular':
                return dict(radius=rng.uniform(0.05, 0.4))
            return dict(r_t=rng.uniform(0.05, 0.3), r_s=rng.uniform(0.02, 0.3), r_ts=rng.uniform(0.05, 0.4),
                        radius=rng.uniform(0.1, 0.6), orientation=rng.uniform(-3, 3))
        yield dict(kind=kind, body=body(), places=[at() for _ in range(rng.randint(1, 3))],
                   others=[[body(), at()] for _ in range(rng.randint(0, 5))],
                   walls=[at() + at() for _ in range(rng.randint(0, 3))])


def nontrivial(case):
    return bool(case['others'])


def row_of(agent):
    return np.array(agent)[0]


def run(case):
    cls = Circular if case['kind'] == 'circular' else ThreeCircle
    rows = []
    for b, p in case['others']:
        o = cls(**b)
        o.place(np.array(p))
        rows.append(np.array(o))
    others = np.concatenate(rows) if rows else np.zeros(0, dtype=cls.dtype())
    walls = np.zeros(len(case['walls']), dtype=obstacle_type_linear)
    for k, w in enumerate(case['walls']):
        walls[k]['p0'], walls[k]['p1'] = w[:2], w[2:]
    me = cls(**case['body'])
    kept = others.copy()
    for p in case['places']:
        given = np.array(p)
        me.place(given)
        row = row_of(me)
        if row['position'].tolist() != p or given.tolist() != p:
            return [('the body is at the position', '%s' % row['position'])]
        if any(float(row[n]) != v for n, v in case['body'].items()):
            return [('placing keeps the attributes', '%s' % row)]
        if case['kind'] == 'three_circle':
            a = case['body']['orientation']
            t = np.array([math.sin(a), -math.cos(a)]) * case['body']['r_ts']
            if not (np.allclose(row['position_ls'], np.array(p) - t, atol=1e-12) and
                    np.allclose(row['position_rs'], np.array(p) + t, atol=1e-12)):
                return [('the shoulders are beside the placed torso', '%s %s' % (row['position_ls'], row['position_rs']))]
        d = discs(case['kind'], row)
        h = min([gap(d, discs(case['kind'], o)) for o in others] or [1.0])
        if abs(h) > 1e-9 and bool(me.overlapping(others)) != (h < 0):
            return [('overlapping exactly when nearer than touching', 'gap %g' % h)]
        h = min([wallgap(d, w) for w in case['walls']] or [1.0])
        if abs(h) > 1e-9 and bool(me.overlapping_obstacles(walls)) != (h < 0):
            return [('overlapping a wall exactly when nearer than touching', 'gap %g' % h)]
        if others.tobytes() != kept.tobytes():
            return [('the others stay as they are', '')]
    return []
