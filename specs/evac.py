"""C27, C28: crowddynamics/core/evacuation.py"""
from .common import *
from .geom import Obstacles, blocked

E = 'crowddynamics.core.evacuation:'

# --------------------------------------------------------------- exit capacity


def door(a):
    return {'widths are positive': land(a.d_agent > 0, True if a.d_layer is None else a.d_layer > 0)}


def capacity(a):
    w = a.d_door
    if a.d_layer is None:
        n = floor(sdiv(w, a.d_agent))
    else:
        n = floor(sdiv(w - (a.d_agent - a.d_layer), a.d_layer))
    return ite(w < a.d_agent, 0.0, a.coeff * n)


for nm, t in (('simple', ConstT(None)), ('layered', RealT(0.1, 0.9))):
    contract(E + 'narrow_exit_capacity',
             [('d_door', RealT(0.0, 4.0)), ('d_agent', RealT(0.1, 1.5)), ('d_layer', t), ('coeff', Real)], Real,
             variant=nm, requires=door, define=capacity)

# -------------------------------------------------------------------- ranking


def away(a, k):
    return norm2(a.c_door - a.position[k])


contract(E + 'agent_closer_to_exit', [('c_door', Vec2), ('position', Rows2())], Arr('i8', 'n'), ensures=lambda a: {
    'ranks lie in 0..n-1': forall(0, a.position.n, lambda k: land(a.result[k] >= 0, a.result[k] < a.position.n)),
    'no rank occurs twice': forall(0, a.position.n, lambda j: forall(0, a.position.n, lambda k: implies(
        ne(j, k), ne(a.result[j], a.result[k])))),
    'closer means lower rank': forall(0, a.position.n, lambda j: forall(0, a.position.n, lambda k: implies(
        away(a, j) < away(a, k), a.result[j] < a.result[k])))})
prop('C28', E + 'narrow_exit_capacity', E + 'agent_closer_to_exit')

# -------------------------------------------------------------- exit detection


def reach(a, i, c):
    return norm2(a.center_door[c] - a.position[i])


def candidate(a, i, c):
    return land(lnot(blocked(a.position[i], a.center_door[c], a.obstacles)), reach(a, i, c) < a.detection_range)


def detects(a):
    n, m = a.position.n, a.center_door.n
    found, has = a.result[0], a.result[1]
    ag = lambda f: forall(0, n, f)
    return {
        'reports none exactly when no exit qualifies': ag(lambda i: iff(has[i], exists(0, m, lambda c: candidate(a, i, c)))),
        'none is marked with -1': ag(lambda i: implies(lnot(has[i]), eq(found[i], -1))),
        'the exit qualifies': ag(lambda i: implies(has[i], land(
            found[i] >= 0, found[i] < m, candidate(a, i, found[i])))),
        'no closer exit qualifies, nor an equally close one with a lower number': ag(lambda i: forall(
            0, m, lambda c: implies(land(has[i], candidate(a, i, c)), land(
                reach(a, i, found[i]) <= reach(a, i, c),
                implies(c < found[i], reach(a, i, found[i]) < reach(a, i, c))))))}


contract(E + 'exit_detection',
         [('center_door', Rows2('c')), ('position', Rows2()), ('obstacles', Obstacles), ('detection_range', RealT(0.0, 8.0))],
         TupT(Arr('i8', 'n'), Arr('b1', 'n')), ensures=detects)
