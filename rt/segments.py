"""C38: geometries to wall segments."""
import numpy as np
from shapely.geometry import (Point, LineString, LinearRing, Polygon, MultiPoint, MultiLineString, MultiPolygon,
                              GeometryCollection)
from crowddynamics.core.geometry import geom_to_linesegment, geom_to_linear_obstacles
from crowddynamics.core.structures import obstacle_type_linear
from rt import geojson

RULE = ('wall segments: single, multi-part and nested geometries with up to 6 vertices per part, absent and wrong arguments; '
        'non-trivial when a segment must come out; distinct by value.')
WRONG = ['x', 1, 2.5, [], [[0, 0], [1, 1]], {'a': 1}]


def cases(rng, tier):
    yield dict(g=None)
    for w in WRONG:
        yield dict(wrong=w)
    for k in geojson.KINDS:
        yield dict(g=geojson.geom(rng, k))
        yield dict(g=['GeometryCollection', geojson.geom(rng, 'Point'), geojson.geom(rng, k), geojson.geom(rng, 'Point')])
    yield dict(g=['LineString', []])
    yield dict(g=['LineString', [[0, 0], [1, 1]]])
    yield dict(g=['LineString', [[0, 0], [1, 1], [0, 0], [1, 1], [0, 0]]])
    yield dict(g=['GeometryCollection'])
    while True:
        gs = [geojson.geom(rng, rng.choice(geojson.KINDS)) for _ in range(rng.randint(0, 4))]
        yield dict(g=rng.choice(gs) if gs and rng.random() < 0.4 else ['GeometryCollection'] + gs)


def nontrivial(case):
    return bool(case.get('g')) and len(want(geojson.build(case['g']))) > 0


def want(g):
    if isinstance(g, Point):
        return []
    if isinstance(g, LineString):
        c = list(g.coords)
        return [(c[i], c[i + 1]) for i in range(len(c) - 1)]
    if isinstance(g, Polygon):
        return want(g.exterior)
    return [s for p in g.geoms for s in want(p)]


def run(case):
    if 'wrong' in case:
        bad = []
        for f in (geom_to_linesegment, geom_to_linear_obstacles):
            try:
                list(f(case['wrong']))
                bad.append(('a wrong argument is a type error', '%s accepts %r' % (f.__name__, case['wrong'])))
            except TypeError:
                pass
        return bad
    if case['g'] is None:
        a = geom_to_linear_obstacles(None)
        return [] if a.dtype == obstacle_type_linear and a.shape == (0,) else [('no obstacles for an absent geometry', str(a))]
    g = geojson.build(case['g'])
    w = want(g)
    got = [tuple(tuple(p) for p in s) for s in geom_to_linesegment(g)]
    if got != w:
        return [('exactly the consecutive vertex pairs in order', '%s, not %s' % (got, w))]
    a = geom_to_linear_obstacles(g)
    if a.dtype != obstacle_type_linear or a.shape != (len(w),):
        return [('an array of linear obstacles', '%s %s' % (a.dtype, a.shape))]
    got = [(tuple(r['p0'].tolist()), tuple(r['p1'].tolist())) for r in a]
    if got != w:
        return [('obstacles are the segments in order', '%s, not %s' % (got, w))]
    return []
