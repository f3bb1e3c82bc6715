"""C39: sampling with given random numbers."""
import itertools

import numpy as np

from crowddynamics.core.sampling import random_sample_line, random_sample_triangle, linestring_sample, polygon_sample
from rt.crowd import *

RULE = ('samples: segments, triangles, polylines of 2 to 7 vertices (also with repeated vertices) and convex polygons of 3 to 7 '
        'vertices with random numbers given explicitly (0, just below 1, at and around the weights) or seeded; every case is '
        'non-trivial; distinct by value.')


def cases(rng, tier):
    us = [0.0, 0.25, 0.5, 1 - 1e-16, 1e-12]
    for a, b in itertools.product(us, us):
        yield dict(kind='line', v=[[1.0, 2.0], [-3.0, 0.5]], u=[a])
        yield dict(kind='triangle', v=[[0.0, 0.0], [2.0, 0.0], [0.0, 1.0]], u=[a, b])
        yield dict(kind='triangle', v=[[1.0, -2.0], [0.5, 3.0], [-4.0, 1.0]], u=[a, b])
        yield dict(kind='polyline', v=[[0.0, 0.0], [1.0, 0.0], [1.0, 3.0]], u=[a, b, b, a])
        yield dict(kind='polygon', v=[[0.0, 0.0], [4.0, 0.0], [4.0, 1.0], [0.0, 2.0]], u=[a, b, a, b, a, b])
    while True:
        k = rng.choice(('line', 'triangle', 'polyline', 'polyline', 'polygon', 'polygon'))
        n = {'line': 2, 'triangle': 3, 'polyline': rng.randint(2, 7) if rng.random() < 0.9 else 30, 'polygon': rng.randint(3, 7) if rng.random() < 0.9 else 14}[k]
        if k == 'polygon':
            a = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
            r = rng.uniform(0.5, 5)
            x, y = rng.uniform(-3, 3), rng.uniform(-3, 3)
            v = [[x + r * math.cos(t), y + r * math.sin(t)] for t in a]
            if rng.random() < 0.5:
                v.reverse()
            if rng.random() < 0.5:
                v.append(list(v[0]))
            if area2(v[:3]) < 0.05:
                continue
        else:
            v = [[rng.uniform(-5, 5), rng.uniform(-5, 5)] for _ in range(n)]
            if k == 'polyline' and n > 2 and rng.random() < 0.3:
                v[1] = list(v[0])
        c = dict(kind=k, v=v)
        if rng.random() < 0.2:
            c['seed'] = rng.randint(0, 9999)
        else:
            c['u'] = [rng.choice((rng.random(), rng.random(), 0.0, 1 - 1e-16)) for _ in range(12)]
        yield c


def nontrivial(case):
    return True


def area2(v):
    return abs(cross(v[0], v[1], v[2]))


def on_segment(p, a, b):
    l = math.dist(a, b)
    return abs(math.dist(p, a) + math.dist(p, b) - l) < 1e-9 * (1 + l)


def in_triangle(p, a, b, c):
    s = area2([a, b, c])
    return abs(area2([p, a, b]) + area2([p, b, c]) + area2([p, c, a]) - s) < 1e-9 * (1 + s)


class Numbers:
    def __init__(self, us):
        self.us, self.used = list(us), []

    def random(self, size=None):
        if size is not None:
            return np.array([self.random() for _ in range(int(np.prod(size)))]).reshape(size)
        self.used.append(self.us.pop(0) if self.us else 0.5)
        return self.used[-1]

    def rand(self, *shape):
        return self.random(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)


def run(case):
    keep = {k: getattr(np.random, k) for k in ('random', 'rand', 'uniform', 'random_sample')}
    v = np.array(case['v'], dtype=float)
    vs = [tuple(p) for p in case['v']]
    b = v.copy()
    num = Numbers(case.get('u', ()))
    try:
        if 'seed' in case:
            np.random.seed(case['seed'])
        else:
            np.random.random = np.random.random_sample = num.random
            np.random.rand, np.random.uniform = num.rand, num.uniform
        k = case['kind']
        if k == 'line':
            p = random_sample_line(v[0], v[1])
            bad = check_line(p, vs[0], vs[1], num.used)
        elif k == 'triangle':
            p = random_sample_triangle(v[0], v[1], v[2])
            bad = check_triangle(p, vs, num.used)
        else:
            bad = []
            g = linestring_sample(v) if k == 'polyline' else polygon_sample(v)
            for _ in range(2 if k == 'polygon' else 3):
                at = len(num.used)
                p = next(g)
                bad += (check_polyline if k == 'polyline' else check_polygon)(p, vs, num.used[at:])
        if v.tobytes() != b.tobytes():
            bad.append(('the vertices are unchanged', ''))
        return bad
    finally:
        for k, f in keep.items():
            setattr(np.random, k, f)


def near(p, q):
    return math.dist(p, q) < 1e-9


def check_line(p, a, b, u):
    bad = []
    if not on_segment(p, a, b):
        bad.append(('a sample of a segment lies on it', str(p)))
    if len(u) == 1 and not near(p, (u[0] * (b[0] - a[0]) + a[0], u[0] * (b[1] - a[1]) + a[1])):
        bad.append(('the sample is the stated combination of the end points', '%s for %s' % (p, u)))
    return bad


def check_triangle(p, vs, u):
    bad = []
    a, b, c = vs
    if not in_triangle(p, a, b, c):
        bad.append(('a sample of a triangle lies in it', str(p)))
    if len(u) == 2:
        s, r = math.sqrt(u[0]), u[1]
        if not near(p, tuple((1 - s) * a[i] + s * (1 - r) * b[i] + r * s * c[i] for i in (0, 1))):
            bad.append(('the sample is the stated combination of the corners', '%s for %s' % (p, u)))
    return bad


def pieces(w, x):
    """indices of the pieces that x selects (two when x is at a border)"""
    t = sum(w)
    c, out = 0.0, []
    for i, y in enumerate(w):
        if c / t - 1e-9 <= x <= (c + y) / t + 1e-9:
            out.append(i)
        c += y
    return out


def check_polyline(p, vs, u):
    segs = list(zip(vs, vs[1:]))
    if not any(on_segment(p, a, b) for a, b in segs):
        return [('a sample of a polyline lies on it', str(p))]
    if len(u) != 2:
        return []
    c = pieces([math.dist(a, b) for a, b in segs], u[0])
    if any(not check_line(p, segs[i][0], segs[i][1], u[1:]) for i in c):
        return []
    return [('the sample comes from the piece selected by length', '%s for %s' % (p, u))]


def check_polygon(p, vs, u):
    if vs[0] == vs[-1]:
        vs = vs[:-1]
    tris = [(vs[0], vs[k], vs[k + 1]) for k in range(1, len(vs) - 1)]
    if not any(in_triangle(p, *t) for t in tris):
        return [('a sample of a polygon lies in it', str(p))]
    if len(u) != 3:
        return []
    c = pieces([area2(t) for t in tris], u[0])
    if any(not check_triangle(p, tris[i], u[1:]) for i in c):
        return []
    return [('the sample comes from the piece selected by area', '%s for %s' % (p, u))]
