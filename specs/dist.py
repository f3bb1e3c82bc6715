"""C03, C04, C05: crowddynamics/core/distance.py"""
from .common import *

M = 'crowddynamics.core.distance:'
Radius = RealT(lo=0.0, hi=1.5)


circles = C.opaque('circles', lambda x0, r0, x1, r1: norm2(x0 - x1) - (r0 + r1))


contract(M + 'distance_circles', [('x0', Vec2), ('r0', Real), ('x1', Vec2), ('r1', Real)], TupT(Real, Vec2),
         define=lambda a: (circles(a.x0, a.r0, a.x1, a.r1), unit_of(a.x0 - a.x1)))


T3 = TupT(Vec2, Vec2, Vec2)
R3 = TupT(Real, Real, Real)


def three_post(a):
    """the result is that of one of the nine disc pairs, and no pair is closer"""
    h, n, m0, m1 = a.result
    pairs = [(i, j) for i in range(3) for j in range(3)]
    d = {(i, j): circles(a.x0[i], a.r0[i], a.x1[j], a.r1[j]) for i, j in pairs}

    def is_pair(i, j):
        u = unit_of(a.x0[i] - a.x1[j])
        return land(eq(h, d[i, j]), eq(n, u), eq(m0, a.x0[i] + u * a.r0[i] - a.x0[0]),
                    eq(m1, a.x1[j] - u * a.r1[j] - a.x1[0]))
    return {'smallest of the nine distances': land(*[h <= d[p] for p in pairs]),
            'distance, normal and lever arms of a closest pair': lor(*[is_pair(i, j) for i, j in pairs])}


def _first_nearest(results):
    """result with the smallest distance; the first of equally near ones"""
    best = results[0]
    for r in results[1:]:
        c = r[0] < best[0]
        best = tuple(V2(ite(c, p.x, q.x), ite(c, p.y, q.y)) if isinstance(p, V2) else ite(c, p, q)
                     for p, q in zip(r, best))
    return best


def _three(x0, r0, x1, r1):
    out = []
    for i in range(3):
        for j in range(3):
            u = unit_of(x0[i] - x1[j])
            out.append((circles(x0[i], r0[i], x1[j], r1[j]), u, x0[i] + u * r0[i] - x0[0], x1[j] - u * r1[j] - x1[0]))
    return _first_nearest(out)


three_circles = C.chosen('distance_three_circles', ('r', 'v', 'v', 'v'), _three)

contract(M + 'distance_three_circles', [('x0', T3), ('r0', R3), ('x1', T3), ('r1', R3)], TupT(Real, Vec2, Vec2, Vec2),
         ensures=three_post, pick=lambda a: three_circles(a.x0, a.r0, a.x1, a.r1))


def segment_nearest(x, p0, p1):
    """point of the segment p0-p1 nearest to x, and its parameter in [0, 1]"""
    d = p1 - p0
    s = sdiv(dot2(x - p0, d), dot2(d, d))
    t = ite(s < 0, s * 0.0, ite(s > 1, s * 0.0 + 1.0, s))
    return p0 + d * t, t


def _circle_line(x, r, p0, p1):
    q, _ = segment_nearest(x, p0, p1)
    return norm2(x - q) - r, unit_of(x - q)


circle_line = C.opaque('circle_line', _circle_line)
nondegenerate = lambda a: {'the wall has positive length': lor(ne(a.p0.x, a.p1.x), ne(a.p0.y, a.p1.y))}

def circle_line_steps(a):
    h, n = a.result
    q, t = segment_nearest(a.x, a.p0, a.p1)
    d = h + a.r
    w = a.x - q
    return {'distance is not negative': d >= 0,
            'normal times distance is the vector from the nearest point': eq(n * d, w),
            'normal has length one or zero': lor(eq(dot2(n, n), 1.0), land(eq(n, V2(0.0, 0.0)), eq(d, 0.0))),
            'squared distance': eq(d * d, dot2(w, w)),
            'distance': eq(d, norm2(w))}


contract(M + 'distance_circle_line', [('x', Vec2), ('r', Real), ('p0', Vec2), ('p1', Vec2)], TupT(Real, Vec2),
         requires=nondegenerate, define=lambda a: circle_line(a.x, a.r, a.p0, a.p1), steps=circle_line_steps)


def three_line_post(a):
    h, n, m = a.result
    d = [circle_line(a.x[i], a.r[i], a.p0, a.p1) for i in range(3)]
    return {'smallest of the three distances': land(*[h <= d[i][0] for i in range(3)]),
            'distance, normal and lever arm of a closest disc': lor(*[
                land(eq(h, d[i][0]), eq(n, d[i][1]), eq(m, a.x[i] - d[i][1] * a.r[i] - a.x[0])) for i in range(3)])}


def _three_line(x, r, p0, p1):
    out = []
    for i in range(3):
        h, u = circle_line(x[i], r[i], p0, p1)
        out.append((h, u, x[i] - u * r[i] - x[0]))
    return _first_nearest(out)


three_circle_line = C.chosen('distance_three_circle_line', ('r', 'v', 'v'), _three_line)

contract(M + 'distance_three_circle_line', [('x', T3), ('r', R3), ('p0', Vec2), ('p1', Vec2)], TupT(Real, Vec2, Vec2),
         requires=nondegenerate, ensures=three_line_post, pick=lambda a: three_circle_line(a.x, a.r, a.p0, a.p1))


def sym(name):
    return SReal(C.Z.Real(name))


def symv(name):
    return V2(sym(name + '.x'), sym(name + '.y'))


def _swap_h():
    x0, x1, r0, r1 = symv('x0'), symv('x1'), sym('r0'), sym('r1')
    return [], eq(circles(x0, r0, x1, r1), circles(x1, r1, x0, r0))


def _swap_n():
    x0, x1 = symv('x0'), symv('x1')
    return [], eq(unit_of(x0 - x1), unit_of(x1 - x0) * -1.0)


def _nearest():
    """no point of the segment is closer than the projection"""
    x, p0, p1, s = symv('x'), symv('p0'), symv('p1'), sym('s')
    q, t = segment_nearest(x, p0, p1)
    p = p0 + (p1 - p0) * s
    return [lor(ne(p0.x, p1.x), ne(p0.y, p1.y)), s >= 0, s <= 1], dot2(x - q, x - q) <= dot2(x - p, x - p)


def _on_segment():
    x, p0, p1 = symv('x'), symv('p0'), symv('p1')
    q, t = segment_nearest(x, p0, p1)
    return [lor(ne(p0.x, p1.x), ne(p0.y, p1.y))], land(t >= 0, t <= 1, eq(q, p0 + (p1 - p0) * t))


prop('C03', M + 'distance_circles', lemmas=[('swapping the discs keeps the distance', _swap_h),
                                             ('swapping the discs flips the normal', _swap_n)])
prop('C04', M + 'distance_three_circles')
prop('C05', M + 'distance_circle_line', M + 'distance_three_circle_line', lemmas=[
    ('the projected point lies on the segment', _on_segment),
    ('no point of the segment is nearer than the projected point', _nearest)])
