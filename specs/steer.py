"""C31, C32, C37: crowddynamics/core/steering/collective_motion.py"""
from pyvc.values import norm_int
from .common import *
from .geom import Obstacles, blocked
from .interact import CELL_LISTS, GRID, add_to_cells, block_pairs, ints, model_pairs, neighboring_cells, pairs_of, symbolic_pairs

M = 'crowddynamics.core.steering.collective_motion:'
MISSING = -1


def ahead(x, y, v, phi):
    """y lies within the viewing angle of somebody at x who moves with velocity v"""
    return cos(phi) < dot2(unit_of(y - x), unit_of(v))


def _heads_away(x1, x2, v1, v2, phi):
    """the second is to be followed by the first: it is ahead and does not face the first
    one, or neither faces the other"""
    one, two = ahead(x1, x2, v1, phi), ahead(x2, x1, v2, phi)
    moving = land(ne(norm2(v1), 0.0), ne(norm2(v2), 0.0))
    return land(moving, lnot(two)) , land(moving, lnot(one))


heads_away = C.opaque('heads_away', _heads_away)


contract(M + 'herding_relationship', [('x1', Vec2), ('x2', Vec2), ('v1', Vec2), ('v2', Vec2), ('phi', RealT(0.0, 3.1))],
         TupT(Bool, Bool), define=lambda a: heads_away(a.x1, a.x2, a.v1, a.v2, a.phi))
contract(M + 'normalize_nx2', [('v', Rows2())], Rows2(), define=lambda a: vrows(a.v.n, lambda k: unit_of(a.v[k])),
         ensures=lambda a: {'zero stays zero': forall(0, a.v.n, lambda k: implies(
             land(eq(a.v[k].x, 0.0), eq(a.v[k].y, 0.0)), land(eq(a.result[k].x, 0.0), eq(a.result[k].y, 0.0))))})


def who(a, i, c):
    """the agent an entry of the table refers to"""
    j = a.neighbors[i, c]
    return ite(j < 0, j + a.position.n, j)


def follows(a, i, c):
    j = who(a, i, c)
    return land(ne(a.neighbors[i, c], MISSING), heads_away(a.position[i], a.position[j], a.velocity[i], a.velocity[j], a.phi)[0])


def total(a, i, f):
    m = a.neighbors.shape[1]
    part = lambda g, zero=0.0: Sum(0, m, lambda c: ite(follows(a, i, c), g(who(a, i, c)), zero))
    return part(lambda j: 1, 0) if f is None else V2(part(lambda j: f(j).x), part(lambda j: f(j).y))


def herd(a, i):
    n = total(a, i, None)
    p, v = total(a, i, lambda j: a.position[j]), total(a, i, lambda j: a.velocity[j])
    w = a.weight_position
    e = unit_of(unit_of(V2(sdiv(p.x, n), sdiv(p.y, n)) - a.position[i]) * w + unit_of(v) * (1 - w))
    c = land(a.is_herding[i], n > 0)
    return c, V2(ite(c, e.x, 0.0), ite(c, e.y, 0.0))


def herd_facts(a):
    d, has = a.result
    n, m = a.neighbors.shape
    nobody = lambda i: lor(lnot(a.is_herding[i]), eq(norm2(a.velocity[i]), 0.0),
                           forall(0, m, lambda c: eq(a.neighbors[i, c], MISSING)))
    return {'nobody to follow, no direction': forall(0, n, lambda i: implies(nobody(i), lnot(has[i]))),
            'no direction is the zero vector': forall(0, n, lambda i: implies(
                lnot(has[i]), land(eq(d[i].x, 0.0), eq(d[i].y, 0.0))))}


def listed(a):
    n, m = a.neighbors.shape
    return {'neighbours are agents or missing': forall(0, n, lambda i: forall(0, m, lambda c: land(
        a.neighbors[i, c] >= -1, a.neighbors[i, c] < n)))}


def herd_gen(rng):
    """small crowds that mostly head the same way, tables of valid entries"""
    import math
    n = rng.choice((1, 2, 3, 4, 5, 6))
    m = rng.choice((0, 1, 2, 2, 3))
    head = rng.uniform(-3, 3)
    v = []
    for _ in range(n):
        t = head + rng.uniform(-1, 1) if rng.random() < 0.7 else rng.uniform(-3.1, 3.1)
        r = 0.0 if rng.random() < 0.1 else rng.uniform(0.2, 2)
        v += [r * math.cos(t), r * math.sin(t)]
    p = [rng.uniform(-3, 3) for _ in range(2 * n)]
    if n > 1 and rng.random() < 0.1:
        p[2:4] = p[0:2]
    t = [rng.choice((-1, rng.randrange(n), rng.randrange(n))) for _ in range(n * m)]
    arr = lambda dt, sh, d: {'t': 'arr', 'dtype': dt, 'shape': sh, 'data': d}
    return [arr('b1', [n], [rng.random() < 0.7 for _ in range(n)]), arr('f8', [n, 2], p), arr('f8', [n, 2], v),
            arr('i8', [n, m], t), {'t': 'f', 'v': rng.choice((0.0, 0.15, 1.0, rng.random()))},
            {'t': 'f', 'v': rng.choice((0.45 * math.pi, math.pi / 2, rng.uniform(0.1, 3)))}]


contract(M + 'herding_interaction',
         [('is_herding', Arr('b1', 'n')), ('position', Rows2()), ('velocity', Rows2()), ('neighbors', Arr('i8', 'n', 'm')),
          ('weight_position', RealT(0.0, 1.0)), ('phi', RealT(0.0, 3.1))], TupT(Rows2(), Arr('b1', 'n')),
         requires=listed, gen=herd_gen, ensures=herd_facts, define=lambda a: (vrows(a.position.n, lambda i: herd(a, i)[1]),
                                            vec(a.position.n, lambda i: herd(a, i)[0])))
prop('C31', M + 'herding_relationship', M + 'herding_interaction')


# ------------------------------------------------------------------ leaders
NO_TARGET = NO_LEADER = -1


def either(b, x, y):
    return land(implies(b, x), lor(b, y))


def cand(a, i, j):
    """leader j gives follower i a strategy: it is the remembered one behind a wall, or it is
    visible and heads away"""
    p = a.position
    return land(a.is_leader[j], norm2(p[i] - p[j]) <= a.sight, either(
        blocked(p[i], p[j], a.obstacles), eq(a.index_leader[i], j),
        heads_away(p[i], p[j], a.velocity[i], a.velocity[j], a.phi)[0]))


def closest(a, i, j):
    p = a.position
    return land(cand(a, i, j), forall(0, p.n, lambda q: implies(
        cand(a, i, q), norm2(p[i] - p[j]) <= norm2(p[i] - p[q]))))


def leader_direction(a, i, j):
    w = a.weight_position
    return unit_of(unit_of(a.position[j] - a.position[i]) * w + unit_of(a.velocity[j]) * (1 - w))


def led(a, i):
    """what holds after the call for follower i"""
    d, has = a.result
    p, t, m, t0, m0 = a.position, a.post.target[i], a.post.index_leader[i], a.target, a.index_leader
    zero = land(eq(d[i].x, 0.0), eq(d[i].y, 0.0))
    found = exists(0, p.n, lambda j: cand(a, i, j))
    return {
        'the closest leader is followed': implies(found, land(m >= 0, m < p.n, closest(a, i, m), either(
            blocked(p[i], p[m], a.obstacles), land(eq(t, t0[m]), eq(m, m0[i]), zero),
            land(eq(t, NO_TARGET), eq(d[i], leader_direction(a, i, m)))))),
        'with a strategy': implies(lor(found, ne(m0[i], NO_LEADER)), has[i]),
        'without a strategy': implies(has[i], lor(found, ne(m0[i], NO_LEADER))),
        'a remembered leader\'s target is taken': implies(land(lnot(found), ne(m0[i], NO_LEADER)), land(
            eq(t, t0[m0[i]]), eq(m, m0[i]), zero)),
        'without any nothing changes': implies(land(lnot(found), eq(m0[i], NO_LEADER)), land(
            eq(t, t0[i]), eq(m, m0[i]), zero))}


def led_by(a):
    n = a.position.n
    d, has = a.result
    names = list(led(a, SInt(0)))
    out = {nm: forall(0, n, lambda i, nm=nm: implies(a.is_follower[i], led(a, i)[nm])) for nm in names}
    out['others are left alone'] = forall(0, n, lambda i: implies(lnot(a.is_follower[i]), land(
        eq(a.post.target[i], a.target[i]), eq(a.post.index_leader[i], a.index_leader[i]), lnot(has[i]),
        eq(d[i].x, 0.0), eq(d[i].y, 0.0))))
    return out


contract(M + 'leader_follower_interaction_brute',
         [('is_follower', Arr('b1', 'n')), ('is_leader', Arr('b1', 'n')), ('position', Rows2()), ('velocity', Rows2()),
          ('weight_position', RealT(0.0, 1.0)), ('phi', RealT(0.0, 3.1)), ('target', Arr('i8', 'n')),
          ('index_leader', Arr('i8', 'n')), ('obstacles', Obstacles), ('sight', RealT(0.1, 20.0))],
         TupT(Rows2(), Arr('b1', 'n')), modifies=['target', 'index_leader'],
         requires=lambda a: {
             'leaders do not follow': forall(0, a.position.n, lambda i: lnot(land(a.is_leader[i], a.is_follower[i]))),
             'remembered leaders are leaders': forall(0, a.position.n, lambda i: lor(
                 eq(a.index_leader[i], NO_LEADER), land(a.index_leader[i] >= 0, a.index_leader[i] < a.position.n,
                                                        a.is_leader[a.index_leader[i]])))},
         ensures=led_by, search=False, opt={'abstract': ['blocked']})


# ------------------------------------------------------------------ nearest neighbours
MISSING = -1


def table(a, nb, dist, far, upto):
    """the tables after the first `upto` of the presented pairs: nb neighbours, dist their distances,
    far the largest of these; -> {name: for agent k}"""
    p, ps, m = a.position, pairs_of(a), a.size_nearest_other

    def seen(l, k, c):
        """pair l presents c as a candidate of k, in sight"""
        return land(lor(land(eq(ps.i(l), k), eq(ps.j(l), c)), land(eq(ps.j(l), k), eq(ps.i(l), c))),
                    lnot(blocked(p[ps.i(l)], p[ps.j(l)], a.obstacles)))

    def entry(k, q):
        return land(eq(dist[k, q], norm2(p[k] - p[nb[k, q]])), dist[k, q] < a.sight,
                    exists(0, upto, lambda l: seen(l, k, nb[k, q])))

    def listed(k, c):
        return exists(0, m, lambda q: eq(nb[k, q], c))
    return {
        'entries are candidates in sight': lambda k: forall(0, m, lambda q: either(
            eq(nb[k, q], MISSING), eq(dist[k, q], a.sight), entry(k, q))),
        'each at most once': lambda k: forall(0, m, lambda q: forall(0, m, lambda r: implies(
            land(q < r, eq(nb[k, q], nb[k, r])), eq(nb[k, q], MISSING)))),
        'the largest distance': lambda k: land(forall(0, m, lambda q: dist[k, q] <= far[k]),
                                               exists(0, m, lambda q: eq(dist[k, q], far[k])), far[k] <= a.sight),
        'no closer candidate is left out': lambda k: forall(0, upto, lambda l: implies(
            land(seen(l, k, ps.j(l)), norm2(p[k] - p[ps.j(l)]) < far[k]), listed(k, ps.j(l)))),
        'no closer candidate is left out, other way round': lambda k: forall(0, upto, lambda l: implies(
            land(seen(l, k, ps.i(l)), norm2(p[k] - p[ps.i(l)]) < far[k]), listed(k, ps.i(l))))}


def neighbour_req(a):
    ps, n = pairs_of(a), a.position.n
    if ps is None:
        return {'not a cell list': ne(0, 0)}
    return {'pairs of agents': forall(0, ps.n, lambda l: land(
        ps.i(l) >= 0, ps.i(l) < n, ps.j(l) >= 0, ps.j(l) < n, ne(ps.i(l), ps.j(l)))),
        'no pair is presented twice': forall(0, ps.n, lambda l: forall(0, ps.n, lambda r: implies(l < r, land(
            lor(ne(ps.i(l), ps.i(r)), ne(ps.j(l), ps.j(r))), lor(ne(ps.i(l), ps.j(r)), ne(ps.j(l), ps.i(r))))))),
        'a table with entries': a.size_nearest_other >= 1, 'sight is a distance': a.sight > 0}


def neighbour_inv(a, l, it):
    t = table(a, l.neighbors, l.distances, l.distances_max, it)
    return {k: forall(0, a.position.n, f) for k, f in t.items()}


NEED = ('entries are candidates in sight', 'the largest distance')
LEFT = 'no closer candidate is left out'
USES = {NEED[0]: NEED, NEED[1]: NEED, 'each at most once': NEED + ('each at most once',), LEFT: NEED + (LEFT,),
        LEFT + ', other way round': NEED + (LEFT + ', other way round',)}


def nearest(a):
    r = a.result
    p, ps, m, n = a.position, pairs_of(a), a.size_nearest_other, a.position.n
    seen = lambda l, k, c: land(lor(land(eq(ps.i(l), k), eq(ps.j(l), c)), land(eq(ps.j(l), k), eq(ps.i(l), c))),
                                lnot(blocked(p[ps.i(l)], p[ps.j(l)], a.obstacles)))
    d = lambda k, c: norm2(p[k] - p[c])
    listed = lambda k, c: exists(0, m, lambda q: eq(r[k, q], c))
    full = lambda k, c: forall(0, m, lambda q: land(ne(r[k, q], MISSING), d(k, r[k, q]) <= d(k, c)))
    in_or_full = lambda l, k, c: implies(land(seen(l, k, c), d(k, c) < a.sight), lor(listed(k, c), full(k, c)))
    return {
        'entries are candidates in sight': forall(0, n, lambda k: forall(0, m, lambda q: lor(eq(r[k, q], MISSING), land(
            d(k, r[k, q]) < a.sight, exists(0, ps.n, lambda l: seen(l, k, r[k, q])))))),
        'a column per neighbour': eq(r.shape[1], m),
        'entries are agents': forall(0, n, lambda k: forall(0, m, lambda q: land(
            r[k, q] >= MISSING, r[k, q] < n))),
        'each at most once': forall(0, n, lambda k: forall(0, m, lambda q: forall(0, m, lambda s: implies(
            land(q < s, eq(r[k, q], r[k, s])), eq(r[k, q], MISSING))))),
        'a candidate in sight is listed or all entries are as close': forall(0, n, lambda k: forall(0, ps.n, lambda l: land(
            in_or_full(l, k, ps.i(l)), in_or_full(l, k, ps.j(l)))))}


def from_cells(ex, st, args):
    """the arrays of a call are the cell list of the agents, every cell once"""
    prov = ex.__dict__.get('prov', {})
    if args[0].key != (('param', 'agents'), 'position') or 'size' not in prov:
        raise C.Unsupported('neighbours of something other than the agents')
    block_pairs(ex, st, args[3:8])
    return {'pairs_': symbolic_pairs(SReal(C.Z.Real(prov['size'])))}


contract(M + 'find_nearest_neighbors',
         [('position', Rows2('n')), ('sight', Real), ('size_nearest_other', Int)] + [ints(nm) for nm in GRID] +
         [('obstacles', Obstacles)], Arr('i8', 'n', 'm'),
         requires=neighbour_req, ensures=nearest, invariants={0: (neighbour_inv, USES)}, search=False, at_call=from_cells,
         result_dims=lambda ex, st, a: {'m': norm_int(a.size_nearest_other)},
         opt={'lazy': 30.0, 'pairs': model_pairs, 'abstract': ['blocked']})
prop('C32', M + 'find_nearest_neighbors', drivers=['neighbours'], assume=[CELL_LISTS])
