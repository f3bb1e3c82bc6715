"""Shared pieces of the crowd cases and geometric oracles with a margin: None
when a decision is too close to call."""
import math

import numpy as np

MARGIN = 1e-7


class Close(Exception):
    """a decision of the oracle is within rounding distance: the case is skipped"""


def lt(a, b):
    if abs(a - b) < MARGIN:
        raise Close()
    return a < b


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def meet(p, q, a, b):
    """the segments pq and ab have a common point"""
    if min(math.dist(p, q), math.dist(a, b)) < MARGIN:
        raise Close()
    d = [cross(p, q, a), cross(p, q, b), cross(a, b, p), cross(a, b, q)]
    if any(abs(x) < MARGIN for x in d):
        raise Close()
    return d[0] * d[1] < 0 and d[2] * d[3] < 0


def hidden(p, q, walls):
    return any([meet(p, q, w[:2], w[2:]) for w in walls])


def unit(v):
    n = math.hypot(*v)
    return (0.0, 0.0) if n == 0 else (v[0] / n, v[1] / n)


def heads_away(x1, x2, v1, v2, phi):
    """the second is to be followed by the first (first component of herding_relationship)"""
    if math.hypot(*v1) == 0 or math.hypot(*v2) == 0:
        return False
    e = unit((x1[0] - x2[0], x1[1] - x2[1]))
    u = unit(v2)
    return not lt(math.cos(phi), e[0] * u[0] + e[1] * u[1])


def walls_array(ws):
    from crowddynamics.core.structures import obstacle_type_linear
    w = np.zeros(len(ws), dtype=obstacle_type_linear)
    for k, x in enumerate(ws):
        w[k]['p0'], w[k]['p1'] = x[:2], x[2:]
    return w


def rnd_walls(rng, span, top=3):
    return [[rng.uniform(-span, span) for _ in range(4)] for _ in range(rng.randint(0, top))]


def rnd_points(rng, n, span):
    out = []
    for _ in range(n):
        if out and rng.random() < 0.2:
            p = rng.choice(out)
            out.append([p[0] + rng.uniform(-1, 1), p[1] + rng.uniform(-1, 1)])
        else:
            out.append([rng.uniform(-span, span), rng.uniform(-span, span)])
    return out


def agents_array(model, n, **fields):
    from crowddynamics.simulation.agents import agent_type_circular, agent_type_three_circle
    a = np.zeros(n, dtype=agent_type_circular if model == 'circular' else agent_type_three_circle)
    for k, v in fields.items():
        a[k] = np.array(v, dtype=a.dtype[k].base).reshape(a[k].shape)
    return a


def changed(before, after):
    """names of the fields that differ anywhere"""
    return {k for k in before.dtype.names if before[k].tobytes() != after[k].tobytes()}
