"""C35: crowddynamics/core/rand.py"""
from .common import *
import z3

from .geom import shoelace

M = 'crowddynamics.core.rand:'


def firing(a, k):
    """k-th firing time of the clock: interval times the sum of the first k+1 draws"""
    return Sum(0, k + 1, lambda j: a.interval * a.draw(j, 'exponential'))


contract(M + 'poisson_clock', [('interval', RealT(0.01, 2.0)), ('dt', RealT(0.0, 2.0))], SeqT('f8'),
         draws='any', yields=lambda a: {
             'before the end of the window': a.value < a.dt,
             'not before its start': a.value >= 0},
         ytype=Real, requires=lambda a: a.interval > 0, search=False, ensures=lambda a: {
             'the k-th value is the k-th firing time': forall(0, a.result.n, lambda k: eq(a.result[k], firing(a, k))),
             'the values do not decrease': forall(1, a.result.n, lambda k: a.result[k - 1] <= a.result[k]),
             'the first firing time not yielded is past the window': firing(a, a.result.n) >= a.dt})
prop('C35', M + 'poisson_clock', drivers=['clocks'])


# ------------------------------------------------------------------ sampling
S = 'crowddynamics.core.sampling:'


def on_line(p0, p1, u):
    return u * (p1 - p0) + p0


def in_triangle(a, b, c, r1, r2):
    """the uniform point of a triangle: the first number chooses the distance from a,
    the second one the position between the sides ab and ac"""
    s = sqrt(r1)
    return (1 - s) * a + (s * (1 - r2)) * b + (r2 * s) * c


contract(S + 'random_sample_line', [('p0', Vec2), ('p1', Vec2)], Vec2, draws=1,
         define=lambda a: on_line(a.p0, a.p1, a.draw(0)))
contract(S + 'random_sample_triangle', [('a', Vec2), ('b', Vec2), ('c', Vec2)], Vec2, draws=2,
         define=lambda a: in_triangle(a.a, a.b, a.c, a.draw(0), a.draw(1)))


def lengths(a, k):
    """length of the first k pieces"""
    return Sum(0, k, lambda i: norm2(a.vertices[i] - a.vertices[i + 1]))


contract(S + 'linestring_sample', [('vertices', Rows2(minlen=2))], None, draws='any', ytype=Vec2, search=False,
         requires=lambda a: land(a.vertices.n >= 2, lengths(a, a.vertices.n - 1) > 0),
         yields=lambda a: {
             'a point of the piece chosen by its length': exists(0, a.vertices.n - 1, lambda i: land(
                 lengths(a, i) <= a.draw(0) * lengths(a, a.vertices.n - 1),
                 a.draw(0) * lengths(a, a.vertices.n - 1) <= lengths(a, i + 1),
                 eq(a.value, on_line(a.vertices[i], a.vertices[i + 1], a.draw(1)))))})


def triangulation(ex, st, env):
    """the triangles the external library returns"""
    m = env['m'] = SInt(ex.fresh_z(z3.IntSort(), 'tris'))
    ex.nonneg.add(m.z.get_id())
    f = env['corner'] = ex.fresh_fun('i8', 2, 'corner')
    ex.opt['delaunay'] = (m, f)


def corner(a, i, c):
    return a.vertices[a.env['corner']((i, c))]


def area(a, i):
    return shoelace(Triangle(*[corner(a, i, c) for c in range(3)]))


class Triangle:
    n = 3

    def __init__(self, *rows):
        self.rows = rows

    def __getitem__(self, i):
        return self.rows[i]


def areas(a, k):
    return Sum(0, k, lambda i: area(a, i))


contract(S + 'polygon_sample', [('vertices', Rows2(minlen=3))], None, draws='any', ytype=Vec2, search=False,
         setup=triangulation, requires=lambda a: land(
             a.env['m'] >= 1, forall(0, a.env['m'], lambda i: land(*[land(
                 0 <= a.env['corner']((i, c)), a.env['corner']((i, c)) < a.vertices.n) for c in range(3)])),
             areas(a, a.env['m']) > 0),
         yields=lambda a: {
             'a point of the triangle chosen by its area': exists(0, a.env['m'], lambda i: land(
                 areas(a, i) <= a.draw(0) * areas(a, a.env['m']),
                 a.draw(0) * areas(a, a.env['m']) <= areas(a, i + 1),
                 eq(a.value, in_triangle(corner(a, i, 0), corner(a, i, 1), corner(a, i, 2), a.draw(1), a.draw(2)))))})
prop('C39', S + 'random_sample_line', S + 'random_sample_triangle', S + 'linestring_sample', S + 'polygon_sample', drivers=['samples'])
