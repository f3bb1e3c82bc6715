"""C23: geometry files."""
import json
import os
from collections import OrderedDict

from shapely.geometry import (Point, LineString, LinearRing, Polygon, MultiPoint, MultiLineString, MultiPolygon,
                              GeometryCollection)
from crowddynamics.io import save_geometry_json, load_geometry_json
from rt.scratch import scratch

RULE = ('geometry files: dictionaries of nothing, single and multi-part geometries (with holes, empty collections) and lists, '
        'tuples or dictionaries of them, saved one to three times to the same file, each time read back; non-trivial when '
        'some geometry is stored; distinct by value.')
KINDS = ['Point', 'LineString', 'LinearRing', 'Polygon', 'PolygonHole', 'MultiPoint', 'MultiLineString', 'MultiPolygon',
         'GeometryCollection', 'MultiPolygon1']


def geom(rng, k, deep=True):
    def pts(n):
        return [[rng.choice((rng.uniform(-9, 9), float(rng.randint(-3, 3)), 0.1, 1e-12)) for _ in range(2)] for _ in range(n)]
    if k == 'Point':
        return [k, pts(1)]
    if k in ('LineString', 'LinearRing', 'Polygon', 'MultiPoint'):
        return [k, pts(rng.randint(3, 5))]
    if k == 'PolygonHole':
        return [k, pts(4), pts(3)]
    if k == 'GeometryCollection':
        return [k] + [geom(rng, rng.choice(KINDS[:5]), False) for _ in range(rng.randint(1, 3))]
    if k == 'MultiPolygon1':
        return ['MultiPolygon', pts(3)]
    return [k] + [pts(rng.randint(3, 4)) for _ in range(rng.randint(1, 3))]


def cases(rng, tier):
    for k in KINDS + [None]:
        g = None if k is None else geom(rng, k)
        for w in ('one', 'list', 'tuple', 'dict', 'empty'):
            yield dict(saves=[[['domain', w, [g] if g else []]]])
            yield dict(saves=[[['domain', w, [g] if g else []], ['obstacles', 'none', []]],
                              [['targets', 'one', [geom(rng, 'Polygon')]]]])
    while True:
        yield dict(saves=[[[n, rng.choice(('one', 'list', 'tuple', 'dict', 'none')),
                            [geom(rng, rng.choice(KINDS)) for _ in range(rng.randint(1, 4))]]
                           for n in rng.sample(['domain', 'obstacles', 'targets', 'spawns', 'type', 'é "x"'], rng.randint(0, 5))]
                          for _ in range(rng.randint(1, 3))])


def nontrivial(case):
    return any(v[2] for s in case['saves'] for v in s)


def build(j):
    k = j[0]
    t = [[tuple(p) for p in c] for c in j[1:]] if k != 'GeometryCollection' else None
    if k == 'Point':
        return Point(t[0][0])
    if k in ('LineString', 'LinearRing', 'Polygon', 'MultiPoint'):
        return {'LineString': LineString, 'LinearRing': LinearRing, 'Polygon': Polygon, 'MultiPoint': MultiPoint}[k](t[0])
    if k == 'PolygonHole':
        return Polygon(t[0], [t[1]])
    if k == 'MultiLineString':
        return MultiLineString(t)
    if k == 'MultiPolygon':
        return MultiPolygon([Polygon(c) for c in t])
    return GeometryCollection([build(g) for g in j[1:]])


def value(w, gs):
    g = [build(x) for x in gs]
    if w == 'none' or w == 'one' and not g:
        return None
    if w == 'one':
        return g[0]
    if w == 'empty':
        return []
    if w == 'tuple':
        return tuple(g)
    if w == 'dict':
        return OrderedDict(('g%d' % i, x) for i, x in enumerate(g))
    return g


def norm(v):
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return dict(v) if isinstance(v, dict) else v


def run(case):
    with scratch() as d:
        f = os.path.join(d, 'geometry.json')
        for s in case['saves']:
            obj = OrderedDict((n, value(w, gs)) for n, w, gs in s)
            save_geometry_json(f, obj)
            got = load_geometry_json(f)
            if set(got) != set(obj):
                return [('the same names are read back', '%s, not %s' % (sorted(got), sorted(obj)))]
            for n in obj:
                a, b = norm(got[n]), norm(obj[n])
                if type(a) is not type(b) or a != b:
                    return [('equal geometries are read back', '%s: %r, not %r' % (n, a, b))]
        return []
