"""C01, C02: crowddynamics/core/vector2D.py"""
from .common import *

M = 'crowddynamics.core.vector2D:'

contract(M + 'rotate90', [('v', Vec2)], Vec2, define=lambda a: V2(-a.v.y, a.v.x))
contract(M + 'rotate270', [('v', Vec2)], Vec2, define=lambda a: V2(a.v.y, -a.v.x))
contract(M + 'angle', [('v', Vec2)], Real, define=lambda a: atan2(a.v.y, a.v.x))
contract(M + 'angle', [('v', Rows2())], Arr('f8', 'n'), variant='rows',
         define=lambda a: vec(a.v.n, lambda k: atan2(a.v[k].y, a.v[k].x)))
contract(M + 'length', [('v', Vec2)], Real, define=lambda a: norm2(a.v))
contract(M + 'length', [('v', Rows2())], Arr('f8', 'n'), variant='rows',
         define=lambda a: vec(a.v.n, lambda k: norm2(a.v[k])))
contract(M + 'dot', [('v0', Vec2), ('v1', Vec2)], Real, define=lambda a: dot2(a.v0, a.v1))
contract(M + 'dot', [('v0', Rows2()), ('v1', Rows2())], Arr('f8', 'n'), variant='rows',
         define=lambda a: vec(a.v0.n, lambda k: dot2(a.v0[k], a.v1[k])))
contract(M + 'cross', [('v0', Vec2), ('v1', Vec2)], Real, define=lambda a: cross2(a.v0, a.v1))
contract(M + 'cross', [('v0', Rows2()), ('v1', Rows2())], Arr('f8', 'n'), variant='rows',
         define=lambda a: vec(a.v0.n, lambda k: cross2(a.v0[k], a.v1[k])))
contract(M + 'normalize', [('v', Vec2)], Vec2, result_alias=True, export=False, define=lambda a: unit_of(a.v),
         ensures=lambda a: {
             'length one or zero': implies(ne(norm2(a.v), 0.0), eq(dot2(a.result, a.result), 1.0)),
             'same direction': land(eq(cross2(a.result, a.v), 0.0), dot2(a.result, a.v) >= 0)})
contract(M + 'truncate', [('v', Vec2), ('l', Real)], None, requires=lambda a: a.l > 0,
         effects=lambda a: [Eff('v', lambda: ite(norm2(a.v) > a.l, a.v * sdiv(a.l, norm2(a.v)), a.v))],
         ensures=lambda a: {
             'shortened to the limit': implies(norm2(a.v) > a.l, eq(dot2(a.post.v, a.post.v), a.l * a.l)),
             'same direction': land(eq(cross2(a.post.v, a.v), 0.0), dot2(a.post.v, a.v) >= 0)})
contract(M + 'unit_vector', [('orientation', Real)], Vec2,
         define=lambda a: V2(cos(a.orientation), sin(a.orientation)))
contract(M + 'unit_vector', [('orientation', Arr('f8', 'n'))], Rows2(), variant='rows',
         define=lambda a: vrows(a.orientation.n, lambda k: V2(cos(a.orientation[k]), sin(a.orientation[k]))))
contract(M + 'weighted_average', [('e0', Vec2), ('e1', Vec2), ('weight', Real)], Vec2,
         define=lambda a: a.e0 * a.weight + a.e1 * (1 - a.weight))
contract(M + 'weighted_average', [('e0', Rows2()), ('e1', Rows2()), ('weight', Real)], Rows2(), variant='rows',
         define=lambda a: vrows(a.e0.n, lambda k: a.e0[k] * a.weight + a.e1[k] * (1 - a.weight)),
         ensures=lambda a: {'average of zeros': forall(0, a.e0.n, lambda k: implies(land(
             *[eq(c, 0.0) for e in (a.e0[k], a.e1[k]) for c in (e.x, e.y)]),
             land(eq(a.result[k].x, 0.0), eq(a.result[k].y, 0.0))))})

prop('C01', *[M + f for f in ('rotate90', 'rotate270', 'angle', 'length', 'dot', 'cross', 'normalize', 'truncate',
                              'unit_vector', 'weighted_average')])


def wrap_gen(rng):
    import math
    k = rng.randint(-4, 4)
    v = rng.choice([k * math.pi, (2 * k + 1) * math.pi, rng.uniform(-15, 15), rng.uniform(-3.2, 3.2),
                    k * math.pi + rng.uniform(-.1, .1)])
    return [{'t': 'f', 'v': v}]


contract(M + 'wrap_to_pi', [('rad', Real)], Real, define=lambda a: wrap(a.rad), gen=wrap_gen,
         ensures=lambda a: {
             'range': land(a.result >= -pi_like(a.result), a.result <= pi_like(a.result)),
             'same direction': lor(*[eq(a.result, a.rad - two_pi_times(floor(a.rad / (2 * pi_like(a.rad))) + d, a.rad))
                                     for d in (0, 1)]),
             'unchanged inside': implies(land(a.rad > -pi_like(a.rad), a.rad < pi_like(a.rad)), eq(a.result, a.rad)),
             'positive odd multiples': implies(land(a.rad > 0, eq(a.result, -pi_like(a.rad))), False),
             'negative odd multiples': implies(land(a.rad < 0, eq(a.result, pi_like(a.rad))), False)})
contract(M + 'wrap_to_pi', [('rad', Arr('f8', 'n'))], Arr('f8', 'n'), variant='rows',
         define=lambda a: vec(a.rad.n, lambda k: wrap(a.rad[k])))
prop('C02', M + 'wrap_to_pi')
