"""C06, C07: core/geom2D.py, core/sensory_region.py, core/sampling.py"""
from .common import *

G = 'crowddynamics.core.geom2D:'
S = 'crowddynamics.core.sampling:'
R = 'crowddynamics.core.sensory_region:'


def _intersects(x0, x1, y0, y1):
    u, v, b = x1 - x0, y1 - y0, y0 - x0
    d = cross2(u, v)
    t, s = sdiv(cross2(b, v), d), sdiv(cross2(b, u), d)
    return land(ne(d, 0.0), t >= 0, t <= 1, s >= 0, s <= 1)


intersects = C.opaque('intersects', _intersects)

contract(G + 'line_intersect', [('x0', Vec2), ('x1', Vec2), ('y0', Vec2), ('y1', Vec2)], Bool,
         define=lambda a: intersects(a.x0, a.x1, a.y0, a.y1))

Obstacles = RecT('obstacle', 'm', fresh_dtype=False)


def blocked(p0, p1, obstacles):
    if 'blocked' in C.ABSTRACT and isinstance(obstacles.n, SInt):
        k = SInt(C.Z.Int('!wall'))
        ends = [x for p in (obstacles.p0[k], obstacles.p1[k]) for x in (p.x, p.y)]
        args = [C.to_real(x) for p in (p0, p1) for x in (p.x, p.y)]
        if all(x.nan is False for x in ends + args):
            return C.abstract_pred('blocked', [x.z for x in args], [obstacles.n.z] + [x.z for x in ends])
    return exists(0, obstacles.n, lambda k: intersects(p0, p1, obstacles.p0[k], obstacles.p1[k]))


contract(R + 'is_obstacle_between_points', [('p0', Vec2), ('p1', Vec2), ('obstacles', Obstacles)], Bool,
         ensures=lambda a: {'obstructed exactly when some wall intersects the sight line':
                            iff(a.result, blocked(a.p0, a.p1, a.obstacles))})


def _pts(*names):
    return [V2(SReal(C.Z.Real(n + '.x')), SReal(C.Z.Real(n + '.y'))) for n in names]


def _share():
    x0, x1, y0, y1 = _pts('x0', 'x1', 'y0', 'y1')
    t, s = SReal(C.Z.Real('t')), SReal(C.Z.Real('s'))
    u, v = x1 - x0, y1 - y0
    inside = land(t >= 0, t <= 1, s >= 0, s <= 1, eq(x0 + u * t, y0 + v * s))
    return [ne(cross2(u, v), 0.0), inside], intersects(x0, x1, y0, y1)


def _witness():
    x0, x1, y0, y1 = _pts('x0', 'x1', 'y0', 'y1')
    u, v, b = x1 - x0, y1 - y0, y0 - x0
    d = cross2(u, v)
    t, s = cross2(b, v) / d, cross2(b, u) / d
    return [intersects(x0, x1, y0, y1)], land(t >= 0, t <= 1, s >= 0, s <= 1, eq(x0 + u * t, y0 + v * s))


def _symmetric(perm):
    def f():
        p = _pts('x0', 'x1', 'y0', 'y1')
        return [intersects(*p)], intersects(*[p[i] for i in perm])
    return f


prop('C06', G + 'line_intersect', R + 'is_obstacle_between_points', lemmas=[
    ('segments sharing a point and not parallel intersect', _share),
    ('intersecting segments share a point', _witness),
    ('order of the segments does not matter', _symmetric((2, 3, 0, 1))),
    ('direction of the first segment does not matter', _symmetric((1, 0, 2, 3))),
    ('direction of the second segment does not matter', _symmetric((0, 1, 3, 2)))])


def shoelace(v):
    """half the absolute value of the cyclic sum x_i (y_{i+1} - y_{i-1})"""
    n = v.n
    x, y = (lambda i: v[i].x), (lambda i: v[i].y)
    if isinstance(n, int):
        if n < 3:
            return 0.0
        s = 0.0
        for i in range(n):
            s = s + x(i) * (y((i + 1) % n) - y((i - 1) % n))
        return 0.5 * C.lift_abs(s)
    s = Sum(1, n - 1, lambda i: x(i) * (y(i + 1) - y(i - 1))) + \
        x(n - 1) * (y(0) - y(n - 2)) + x(0) * (y(1) - y(n - 1))
    return ite(n < 3, 0.0, 0.5 * C.lift_abs(s))


contract(G + 'polygon_area', [('vertices', Rows2())], Real, define=lambda a: shoelace(a.vertices))

contract(S + 'linestring_length_cumsum', [('vertices', Rows2(minlen=1))], Arr('f8', 'k'),
         result_dims=lambda ex, st, a: {'k': a.vertices.n - 1},
         requires=lambda a: a.vertices.n >= 1,
         define=lambda a: vec(a.vertices.n - 1, lambda k: Sum(
             0, k + 1, lambda i: norm2(a.vertices[i] - a.vertices[i + 1]))))

contract(S + 'triangle_area_cumsum', [('trimesh', Arr('f8', 'n', 3, 2))], Arr('f8', 'n'),
         define=lambda a: vec(a.trimesh.n, lambda k: Sum(0, k + 1, lambda i: shoelace(a.trimesh[i]))))

prop('C07', G + 'polygon_area', S + 'linestring_length_cumsum', S + 'triangle_area_cumsum')
