"""C29, C30: crowddynamics/core/steering/{navigation,obstacle_handling}.py"""
from .common import *

N = 'crowddynamics.core.steering.navigation:'
O = 'crowddynamics.core.steering.obstacle_handling:'
Grid = Arr('f8', 'r', 'c')
Map = TupT(Grid, Grid)
Cells = Arr('i8', 'n', 2)

# ------------------------------------------------------------------- looking up


def in_grid(i, j, g):
    return land(0 <= i, i < g.shape[0], 0 <= j, j < g.shape[1])


def at(m, i, j):
    return V2(m[0][i, j], m[1][i, j])


def pair(c, x, y):
    return V2(ite(c, x.x, y.x), ite(c, x.y, y.y))


contract(N + 'is_inside', [('a', TupT(Int, Int)), ('lower', TupT(Int, Int)), ('upper', TupT(Int, Int))], Bool,
         define=lambda a: land(*[land(a.lower[k] <= a.a[k], a.a[k] < a.upper[k]) for k in (0, 1)]))

contract(N + 'getdefault', [('indices', Cells), ('dir_map', Map), ('defaults', Rows2())], Rows2(),
         define=lambda a: vrows(a.defaults.n, lambda k: inside_or(
             a.indices[k][0], a.indices[k][1], a.dir_map, a.defaults[k])))


def inside_or(i, j, m, d):
    return pair(in_grid(i, j, m[0]), at(m, i, j), d)


# ------------------------------------------------------------ obstacle handling


def blend(x, away, target, a):
    """combination at distance x from the obstacle; away points to the obstacle"""
    c = land(0 < x, x < a.radius)
    p = power(a.strength, sdiv(x, a.radius))
    return c, pair(c, away * (-p) + target * (1 - p), target)


def strengths(a):
    return {'strength is positive': a.strength > 0}


def normalised(v, w):
    """v is w/|w|, wherever that is defined"""
    return implies(ne(norm2(w), 0.0), land(eq(v.x, sdiv(w.x, norm2(w))), eq(v.y, sdiv(w.y, norm2(w)))))


def maps(a):
    n, m = a.dmap_obs.shape
    return {'normalised combination of the two directions': forall(0, n, lambda i: forall(0, m, lambda j: normalised(
        at(a.result, i, j), blend(-a.dmap_obs[i, j], at(a.dir_map_obs, i, j), at(a.dir_map_targets, i, j), a)[1])))}


PAR = [('radius', RealT(0.1, 3.0)), ('strength', RealT(0.05, 0.95))]
contract(O + 'obstacle_handling', [('dmap_obs', Grid), ('dir_map_obs', Map), ('dir_map_targets', Map)] + PAR, Map,
         requires=strengths, ensures=maps, allow_div0=True)


def moved(a, k):
    i, j = a.indices[k][0], a.indices[k][1]
    c, v = blend(-a.dmap_obs[i, j], at(a.dir_map_obs, i, j), a.direction_target[k], a)
    return pair(land(in_grid(i, j, a.dmap_obs), c), unit_of(v), a.direction_target[k])


contract(O + 'obstacle_handling_continuous',
         [('dmap_obs', Grid), ('dir_map_obs', Map), ('direction_target', Rows2()), ('indices', Cells)] + PAR, Rows2(),
         requires=strengths, define=lambda a: vrows(a.direction_target.n, lambda k: moved(a, k)))
prop('C30', O + 'obstacle_handling', O + 'obstacle_handling_continuous')
