"""Minimal stand-in for the part of shapely 1.x the run-time checks need:
geometry classes as coordinate containers, mapping/shape. No computation."""
import sys

import numpy as np

from _fake import StandInMissing


class BaseGeometry(object):
    def __getattr__(self, k):
        if k.startswith('_') or k == 'geoms':
            raise AttributeError(k)
        if k in ('coords', 'exterior', 'interiors', 'x', 'y', 'z'):
            raise AttributeError('%s has no attribute %s' % (type(self).__name__, k))
        raise StandInMissing('%s.%s' % (type(self).__name__, k))

    def _points(self):
        if hasattr(self, 'coords'):
            return list(self.coords)
        if hasattr(self, 'exterior'):
            return list(self.exterior.coords)
        return [p for g in self.geoms for p in g._points()]

    @property
    def bounds(self):
        p = self._points()
        if not p:
            return ()
        return (min(c[0] for c in p), min(c[1] for c in p), max(c[0] for c in p), max(c[1] for c in p))

    def equals(self, o):
        if self == o:
            return True
        raise StandInMissing('equals')

    def almost_equals(self, o, decimal=6):
        if self == o:
            return True
        raise StandInMissing('almost_equals')

    def __eq__(self, o):
        return type(self) is type(o) and self._key() == o._key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._key())

    def __repr__(self):
        return '%s%r' % (type(self).__name__, self._key())

    @property
    def geom_type(self):
        return type(self).__name__

    type = geom_type

    @property
    def is_empty(self):
        return not self._key()


class Coords(object):
    """coordinate sequence: slicing gives a list of tuples"""
    def __init__(self, c):
        self._c = [tuple(float(v) for v in p) for p in c]

    def __len__(self):
        return len(self._c)

    def __iter__(self):
        return iter(self._c)

    def __getitem__(self, i):
        return self._c[i]

    def __array__(self, dtype=None):
        return np.array(self._c, dtype=dtype or np.float64).reshape(len(self._c), 2)


class _Line(BaseGeometry):
    def __init__(self, coordinates=()):
        c = coordinates.coords if isinstance(coordinates, BaseGeometry) else coordinates
        self.coords = Coords(self._fix(list(c)))

    def _fix(self, c):
        return c

    def _key(self):
        return tuple(self.coords)

    def __array__(self, dtype=None):
        return self.coords.__array__(dtype)

    @property
    def __geo_interface__(self):
        return {'type': type(self).__name__, 'coordinates': tuple(self.coords)}


class Point(_Line):
    def __init__(self, *a):
        if len(a) == 1 and isinstance(a[0], Point):
            c = list(a[0].coords)
        elif len(a) == 1:
            c = [tuple(a[0])]
        else:
            c = [tuple(a)]
        self.coords = Coords(c)

    x = property(lambda self: self.coords[0][0])
    y = property(lambda self: self.coords[0][1])

    @property
    def __geo_interface__(self):
        return {'type': 'Point', 'coordinates': self.coords[0]}


class LineString(_Line):
    @property
    def length(self):
        c = list(self.coords)
        return sum(((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) ** 0.5 for p, q in zip(c, c[1:]))

    @property
    def is_ring(self):
        c = list(self.coords)
        return len(c) > 2 and c[0] == c[-1]

    is_closed = is_ring


class LinearRing(LineString):
    def _fix(self, c):
        c = [tuple(float(v) for v in p) for p in c]
        if c and c[0] != c[-1]:
            c.append(c[0])
        return c


class Polygon(BaseGeometry):
    def __init__(self, shell=(), holes=()):
        self.exterior = LinearRing(shell)
        self.interiors = [LinearRing(h) for h in holes or ()]

    @property
    def boundary(self):
        rings = [LineString(self.exterior.coords)] + [LineString(h.coords) for h in self.interiors]
        return rings[0] if len(rings) == 1 else MultiLineString(rings)

    @property
    def area(self):
        def ring(r):
            c = list(r.coords)
            return abs(sum(p[0] * q[1] - q[0] * p[1] for p, q in zip(c, c[1:]))) / 2
        return ring(self.exterior) - sum(ring(h) for h in self.interiors)

    def _key(self):
        return (self.exterior._key(),) + tuple(h._key() for h in self.interiors) if self.exterior._key() else ()

    @property
    def __geo_interface__(self):
        return {'type': 'Polygon', 'coordinates': (tuple(self.exterior.coords),) + tuple(tuple(h.coords) for h in self.interiors)}


class BaseMultipartGeometry(BaseGeometry):
    part = None

    def __init__(self, parts=()):
        self.geoms = [p if isinstance(p, BaseGeometry) or self.part is None else self.part(p) for p in parts]

    def __iter__(self):
        return iter(self.geoms)

    def __len__(self):
        return len(self.geoms)

    def __getitem__(self, i):
        return self.geoms[i]

    def _key(self):
        return tuple((type(g).__name__, g._key()) for g in self.geoms)

    @property
    def __geo_interface__(self):
        return {'type': type(self).__name__, 'coordinates': tuple(g.__geo_interface__['coordinates'] for g in self.geoms)}


class MultiPoint(BaseMultipartGeometry):
    part = Point


class MultiLineString(BaseMultipartGeometry):
    part = LineString


class MultiPolygon(BaseMultipartGeometry):
    part = Polygon


class GeometryCollection(BaseMultipartGeometry):
    @property
    def __geo_interface__(self):
        return {'type': 'GeometryCollection', 'geometries': [g.__geo_interface__ for g in self.geoms]}


def mapping(ob):
    return ob.__geo_interface__


def shape(ob):
    ob = ob.__geo_interface__ if hasattr(ob, '__geo_interface__') else ob
    t = ob['type'].lower()
    if t == 'geometrycollection':
        return GeometryCollection([shape(g) for g in ob['geometries']])
    c = ob['coordinates']
    if t == 'point':
        return Point(c)
    if t == 'polygon':
        return Polygon(c[0], c[1:])
    if t == 'multipolygon':
        return MultiPolygon([Polygon(p[0], p[1:]) for p in c])
    for k in (LineString, LinearRing, MultiPoint, MultiLineString):
        if k.__name__.lower() == t:
            return k(c)
    raise ValueError('Unknown geometry type: %s' % t)


class Path(object):
    """stand-in for matplotlib.path.Path of a closed polygon"""
    def __init__(self, vertices):
        self.v = np.asarray(vertices, dtype=np.float64)

    def contains_points(self, points):
        p = np.asarray(points)
        if p.dtype.names or p.ndim != 2 or p.shape[1] != 2:
            raise TypeError('points: array of shape (N, 2) expected')
        p = p.astype(np.float64)
        out = np.zeros(len(p), dtype=bool)
        v = self.v
        for k in range(len(p)):
            x, y = p[k]
            c = False
            for i in range(len(v)):
                (x0, y0), (x1, y1) = v[i - 1], v[i]
                if (y0 > y) != (y1 > y) and x < (x1 - x0) * (y - y0) / (y1 - y0) + x0:
                    c = not c
            out[k] = c
        return out


class truncnorm(object):
    """stand-in for scipy.stats.truncnorm"""
    @staticmethod
    def rvs(a, b, loc=0.0, scale=1.0, size=1, random_state=None):
        r = np.random if random_state is None else np.random.RandomState(random_state)
        x = r.normal(size=size)
        bad = (x < a) | (x > b)
        while np.any(bad):
            x = np.where(bad, r.normal(size=size), x)
            bad = (x < a) | (x > b)
        return loc + scale * x


class Delaunay(object):
    """stand-in for scipy.spatial.Delaunay on a convex polygon: a fan"""
    def __init__(self, points):
        self.points = np.asarray(points)
        n = len(self.points)
        if n > 1 and np.array_equal(self.points[0], self.points[-1]):
            n -= 1
        self.simplices = np.array([(0, k, k + 1) for k in range(1, n - 1)], dtype=np.int64).reshape(-1, 3)


def install():
    """after _fake.install()"""
    import shapely.geometry
    import shapely.geometry.base
    import shapely.geometry.polygon
    g = sys.modules['shapely.geometry']
    for k in (Point, LineString, LinearRing, Polygon, MultiPoint, MultiLineString, MultiPolygon, GeometryCollection,
              mapping, shape):
        setattr(g, k.__name__, k)
    b = sys.modules['shapely.geometry.base']
    b.BaseGeometry, b.BaseMultipartGeometry = BaseGeometry, BaseMultipartGeometry
    p = sys.modules['shapely.geometry.polygon']
    p.Polygon, p.LinearRing = Polygon, LinearRing
    import matplotlib.path
    sys.modules['matplotlib.path'].Path = Path
    import scipy.stats
    sys.modules['scipy.stats'].truncnorm = truncnorm
    import scipy.spatial.qhull
    sys.modules['scipy.spatial.qhull'].Delaunay = Delaunay
    sys.modules['scipy.spatial'].Delaunay = Delaunay
