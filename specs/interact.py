"""C12, C13: crowddynamics/core/interactions.py"""
import z3

from .common import *
from .dist import circles, circle_line, three_circle_line, three_circles, unit_of
from .geom import Obstacles
from .motion import CIRC, THREE, VARIANTS, contact, discs, pair_gen, rigid, social_pair, social_three, valid_pair, I
from pyvc.core import Unsupported
from pyvc.values import ArrRef, Seq

N = 'crowddynamics.core.interactions:'
SIGHT = 3.0

# ---------------------------------------------------------------- two agents


def gate(c, v):
    return V2(ite(c, v.x, 0.0), ite(c, v.y, 0.0))


def touch(g, k, h, n, v):
    return contact(h, n, v, rot270(n), g.mu[k], g.kappa[k], g.damping[k])


def pair_circular(g, i, j):
    """forces the pair adds to i and to j"""
    h, n = circles(g.position[i], g.radius[i], g.position[j], g.radius[j]), unit_of(g.position[i] - g.position[j])
    si, sj = social_pair(g, i, j)
    v = g.velocity[i] - g.velocity[j]
    fi = gate(h < SIGHT, si + gate(h < 0, touch(g, i, h, n, v)))
    fj = gate(h < SIGHT, sj - gate(h < 0, touch(g, j, h, n, v)))
    return fi, fj


def three_args(g, k):
    d = discs(g, k)
    return tuple(x for x, r in d), tuple(r for x, r in d)


def pair_three(g, i, j):
    """forces and torques the pair adds to i and to j"""
    xi, ri = three_args(g, i)
    xj, rj = three_args(g, j)
    h, n, mi, mj = three_circles(xi, ri, xj, rj)
    si, sj = social_three(g, i, j)
    v = g.velocity[i] - g.velocity[j]
    fi = gate(h < SIGHT, si + gate(h < 0, touch(g, i, h, n, v)))
    fj = gate(h < SIGHT, sj - gate(h < 0, touch(g, j, h, n, v)))
    return fi, fj, cross2(mi, fi), cross2(mj, fj)


def share(k, i, j, x, y):
    """what agent k gets of (x for i, y for j)"""
    if isinstance(x, V2):
        return V2(share(k, i, j, x.x, y.x), share(k, i, j, x.y, y.y))
    return ite(eq(k, i), x, ite(eq(k, j), y, 0.0))


def two(g, i, j):
    return dict(valid_pair(g, i, j), **{'two different agents': ne(i, j)})


def int_pair_gen(kind):
    base = pair_gen(kind)

    def gen(rng):
        while True:
            g, i, j = base(rng)
            if i != j:
                return [I(i), I(j), g]
    return gen


contract(N + 'interaction_agent_agent_circular', [('i', Int), ('j', Int), ('agents', CIRC)], None,
         requires=lambda a: two(a.agents, a.i, a.j), gen=int_pair_gen('circular'),
         effects=lambda a: [Eff('agents.force', lambda k: a.agents.force[k] + share(
             k, a.i, a.j, *pair_circular(a.agents, a.i, a.j)))])
contract(N + 'interaction_agent_agent_three_circle', [('i', Int), ('j', Int), ('agents', THREE)], None,
         requires=lambda a: dict(two(a.agents, a.i, a.j), **{
             'shoulders in place': land(rigid(a.agents, a.i), rigid(a.agents, a.j))}),
         gen=int_pair_gen('three_circle'),
         effects=lambda a: [Eff('agents.force', lambda k: a.agents.force[k] + share(
             k, a.i, a.j, *pair_three(a.agents, a.i, a.j)[:2])),
                            Eff('agents.torque', lambda k: a.agents.torque[k] + share(
                                k, a.i, a.j, *pair_three(a.agents, a.i, a.j)[2:]))])

# ------------------------------------------------------------------ pair list

GRID = ('cell_indices', 'neigh_cells', 'points_indices', 'cells_count', 'cells_offset')


class PairList:
    def __init__(self, n, i, j):
        self.n, self.i, self.j = n, i, j


def symbolic_pairs(size=None):
    """the pairs of the cell list of the contract's arguments; size: of a cell list
    of the agents with cells of this size"""
    if size is not None:
        z = C.to_real(size).z
        fi, fj = (z3.Function('cell_pair.%s' % c, z3.RealSort(), z3.IntSort(), z3.IntSort()) for c in 'ij')
        w = lambda f: lambda p: SInt(f(z, lift(p).z))
        return PairList(SInt(z3.Function('cell_pairs', z3.RealSort(), z3.IntSort())(z)), w(fi), w(fj))
    fi, fj = (z3.Function('pair.%s' % c, z3.IntSort(), z3.IntSort()) for c in 'ij')
    w = lambda f: lambda p: SInt(f(lift(p).z))
    return PairList(SInt(z3.Int('pairs')), w(fi), w(fj))


def pairs_of(a):
    """the pairs the cell list enumerates"""
    if getattr(a, 'pairs_', None) is not None:
        return a.pairs_
    first = getattr(a, GRID[0])
    if not isinstance(first.n, int):
        return symbolic_pairs()
    import numpy as np
    from .stub import cell_lists
    try:
        ps = list(cell_lists.iter_nearest_neighbors(*[
        np.array([int(getattr(a, nm)[k]) for k in range(getattr(a, nm).n)], dtype=np.int64) for nm in GRID]))
    except IndexError:
        return None
    return PairList(len(ps), lambda p: ps[int(p)][0], lambda p: ps[int(p)][1])


def model_pairs(ex, st, args):
    """iter_nearest_neighbors applied to the arrays of the call, unmodified and in
    this order, gives the pairs of the specification; anything else, other pairs"""
    mine = len(args) == 5 and all(
        isinstance(x, ArrRef) and x.key == ('param', nm) and st.heap[x.key] is ex.entry_heap[x.key]
        for x, nm in zip(args, GRID))
    if mine:
        p = symbolic_pairs()
        return Seq(p.n, lambda k: (p.i(k), p.j(k)))
    raise Unsupported('cell list enumerated with other arguments')


def valid_pairs(a, ps=None):
    ps, g = ps or pairs_of(a), a.agents
    if ps is None:
        return {'not a cell list': ne(0, 0)}
    return {'pairs of agents': forall(0, ps.n, lambda p: land(
        ps.i(p) >= 0, ps.i(p) < g.n, ps.j(p) >= 0, ps.j(p) < g.n, ne(ps.i(p), ps.j(p)))),
        'interaction times are positive': forall(0, g.n, lambda k: g.tau_0[k] > 0)}


def crowd_gen(kind):
    def gen(rng):
        import math
        from pyvc.contract import gen_rec
        from .stub import cell_lists
        import numpy as np
        n = rng.randint(0, 6)
        g = gen_rec(rng, kind, n, {}, False)
        f = g['fields']
        for k in range(n):
            f['k_soc'][2][k] = rng.choice([0.5, 1.0, 1.5])
            f['tau_0'][2][k] = rng.choice([1.0, 2.0, 3.0])
        pts = np.array(f['position'][2]).reshape(-1, 2)
        ind, cnt, off, shape = cell_lists.add_to_cells(pts, rng.choice([0.6, 1.0, 3.6]))
        arr = lambda x: {'t': 'arr', 'dtype': 'i8', 'shape': [len(x)], 'data': [int(y) for y in x]}
        return [g, arr(range(len(cnt))), arr(cell_lists.neighboring_cells(shape)), arr(ind), arr(cnt), arr(off)]
    return gen


def vsum(lo, hi, f):
    return V2(Sum(lo, hi, lambda p: f(p).x), Sum(lo, hi, lambda p: f(p).y))


def sum_pairs(a, k, f, sum_=Sum, pairs=pairs_of):
    ps = pairs(a)
    return sum_(0, ps.n, lambda p: share(k, ps.i(p), ps.j(p), *f(a.agents, ps.i(p), ps.j(p))))


ints = lambda nm: (nm, Arr('i8', nm))
contract(N + 'agent_agent_circular', [('agents', CIRC)] + [ints(nm) for nm in GRID], None,
         requires=valid_pairs, gen=crowd_gen('circular'), opt={'pairs': model_pairs},
         effects=lambda a: [Eff('agents.force', lambda k: a.agents.force[k] + sum_pairs(a, k, pair_circular, vsum))])
contract(N + 'agent_agent_three_circle', [('agents', THREE)] + [ints(nm) for nm in GRID], None,
         requires=lambda a: dict(valid_pairs(a), **{
             'shoulders in place': forall(0, a.agents.n, lambda k: rigid(a.agents, k))}),
         gen=crowd_gen('three_circle'), opt={'pairs': model_pairs},
         effects=lambda a: [
             Eff('agents.force', lambda k: a.agents.force[k] + sum_pairs(
                 a, k, lambda *x: pair_three(*x)[:2], vsum)),
             Eff('agents.torque', lambda k: a.agents.torque[k] +
                 sum_pairs(a, k, lambda *x: pair_three(*x)[2:]))])

# cells of a crowd: provenance of the arrays given to the cell list package
CELLS = ('points_indices', 'cells_count', 'cells_offset', 'grid_shape')


def add_to_cells(ex, st, args):
    pos, size = args
    full = isinstance(pos, ArrRef) and pos.key == (('param', 'agents'), 'position') and \
        st.heap[pos.key] is ex.entry_heap[pos.key] and all(d[0] == 'd' and z3.eq(lift(d[2]).z, lift(n).z) and isinstance(
            d[1], int) for d, n in zip(pos.dims, st.heap[pos.key].shape))
    name = ex.opt.get('cell_size', 'cell_size')
    if not full or not z3.eq(lift(size).z, z3.Real(name)):
        raise Unsupported('cells of something other than the agents')
    ex.__dict__.setdefault('prov', {})['size'] = name
    m = SInt(z3.Int('cells'))
    ex.nonneg.add(m.z.get_id())
    out = []
    for nm, n in zip(CELLS, (pos.shape[0], m, m, 2)):
        out.append(ex.alloc(st, (n,), 'i8', ex.fresh_fun('i8', 1, nm), base='cells.' + nm, readonly=True))
        ex.__dict__.setdefault('prov', {})[nm] = out[-1].key
    return tuple(out)


def neighboring_cells(ex, st, args):
    if not isinstance(args[0], ArrRef) or args[0].key != ex.prov['grid_shape']:
        raise Unsupported('neighbours of another grid')
    out = ex.alloc(st, (SInt(z3.Int('neigh')),), 'i8', ex.fresh_fun('i8', 1, 'neigh'), base='cells.neigh', readonly=True)
    ex.prov['neigh_cells'] = out.key
    return out


def block_pairs(ex, st, args):
    """the arrays of the cell list, every cell once"""
    all_, rest = args[0], args[1:]
    k = SInt(z3.Int('cell'))
    got = st.heap[all_.key].get((k,))
    ok = len(args) == 5 and all(x.key == ex.prov.get(nm) for x, nm in zip(rest, GRID[1:])) and \
        z3.eq(z3.simplify(lift(all_.shape[0]).z), z3.Int('cells')) and z3.eq(z3.simplify(lift(got).z), k.z)
    if not ok:
        raise Unsupported('cell list enumerated with other arguments')
    p = symbolic_pairs(SReal(z3.Real(ex.prov['size'])))
    return Seq(p.n, lambda k: (p.i(k), p.j(k)))


def block_pairs_of(a):
    if not isinstance(a.agents.n, int):
        return symbolic_pairs(a.cell_size)
    import numpy as np
    from .stub import cell_lists
    pts = np.array([[float(v.x.v), float(v.y.v)] for v in (a.agents.position[k] for k in range(a.agents.n))])
    ind, cnt, off, shape = cell_lists.add_to_cells(pts, float(a.cell_size.v))
    ps = list(cell_lists.iter_nearest_neighbors(range(len(cnt)), cell_lists.neighboring_cells(shape), ind, cnt, off))
    return PairList(len(ps), lambda p: ps[int(p)][0], lambda p: ps[int(p)][1])


def block_gen(kind):
    base = crowd_gen(kind)
    return lambda rng: [base(rng)[0], {'t': 'f', 'v': rng.choice([0.6, 1.0, 3.6])}]


def block_req(a):
    r = valid_pairs(a, block_pairs_of(a))
    r['cell size is positive'] = a.cell_size > 0
    return r


block_opt = {'pairs': block_pairs, 'add_to_cells': add_to_cells, 'neighboring_cells': neighboring_cells,
             'inline': (N + 'agent_agent_circular', N + 'agent_agent_three_circle')}
contract(N + 'agent_agent_block_list', [('agents', CIRC), ('cell_size', Real)], None, variant='circular',
         requires=block_req, gen=block_gen('circular'), opt=block_opt,
         effects=lambda a: [Eff('agents.force', lambda k: a.agents.force[k] + sum_pairs(
             a, k, pair_circular, vsum, block_pairs_of))])
contract(N + 'agent_agent_block_list', [('agents', THREE), ('cell_size', Real)], None, variant='three_circle',
         requires=lambda a: dict(block_req(a), **{
             'shoulders in place': forall(0, a.agents.n, lambda k: rigid(a.agents, k))}),
         gen=block_gen('three_circle'), opt=block_opt,
         effects=lambda a: [
             Eff('agents.force', lambda k: a.agents.force[k] + sum_pairs(
                 a, k, lambda *x: pair_three(*x)[:2], vsum, block_pairs_of)),
             Eff('agents.torque', lambda k: a.agents.torque[k] + sum_pairs(
                 a, k, lambda *x: pair_three(*x)[2:], Sum, block_pairs_of))])

CELL_LISTS = ('cell_lists.iter_nearest_neighbors (not installed): yields a finite sequence of pairs of different agents; '
              'that it yields every pair of agents in the same or adjacent cells exactly once is its own contract')

# ---------------------------------------------------------------------- walls


def wall_circular(g, o, i, w):
    h, n = circle_line(g.position[i], g.radius[i], o.p0[w], o.p1[w])
    return gate(h < 0, touch(g, i, h, n, g.velocity[i]))


def wall_three(g, o, i, w):
    x, r = three_args(g, i)
    h, n, m = three_circle_line(x, r, o.p0[w], o.p1[w])
    f = gate(h < 0, touch(g, i, h, n, g.velocity[i]))
    return f, cross2(m, f)


def wall_ok(o, w):
    return lor(ne(o.p0[w].x, o.p1[w].x), ne(o.p0[w].y, o.p1[w].y))


def one_wall(a):
    return {'indices in range': land(a.i >= 0, a.i < a.agents.n, a.w >= 0, a.w < a.obstacles.n),
            'the wall has positive length': wall_ok(a.obstacles, a.w)}


def all_walls(a):
    return {'the walls have positive length': forall(0, a.obstacles.n, lambda w: wall_ok(a.obstacles, w))}


def wall_gen(kind, one):
    def gen(rng):
        from pyvc.contract import gen_rec
        n, m = rng.randint(one, 4), rng.randint(one, 4)
        g = gen_rec(rng, kind, n, {}, False)
        o = Obstacles.gen(rng, {'m': m})
        for k in range(m):
            # through or near an agent
            if n and rng.random() < 0.7:
                p = g['fields']['position'][2]
                q = rng.randrange(n)
                o['fields']['p0'][2][2 * k:2 * k + 2] = [p[2 * q + c] + rng.uniform(-0.6, 0.6) for c in (0, 1)]
        return ([I(rng.randrange(n)), I(rng.randrange(m))] if one else []) + [g, o]
    return gen


contract(N + 'interaction_agent_circular_obstacle', [('i', Int), ('w', Int), ('agents', CIRC), ('obstacles', Obstacles)],
         None, requires=one_wall, gen=wall_gen('circular', 1),
         effects=lambda a: [Eff('agents.force', lambda k: a.agents.force[k] + gate(
             eq(k, a.i), wall_circular(a.agents, a.obstacles, a.i, a.w)))])
contract(N + 'interaction_agent_three_circle_obstacle', [('i', Int), ('w', Int), ('agents', THREE),
                                                         ('obstacles', Obstacles)],
         None, requires=one_wall, gen=wall_gen('three_circle', 1),
         effects=lambda a: [Eff('agents.force', lambda k: a.agents.force[k] + gate(
             eq(k, a.i), wall_three(a.agents, a.obstacles, a.i, a.w)[0])),
                            Eff('agents.torque', lambda k: a.agents.torque[k] + ite(
                                eq(k, a.i), wall_three(a.agents, a.obstacles, a.i, a.w)[1], 0.0))])


def walls_circular(a):
    return [Eff('agents.force', lambda k: a.agents.force[k] + vsum(
        0, a.obstacles.n, lambda w: wall_circular(a.agents, a.obstacles, k, w)))]


def walls_three(a):
    return [Eff('agents.force', lambda k: a.agents.force[k] + vsum(
        0, a.obstacles.n, lambda w: wall_three(a.agents, a.obstacles, k, w)[0])),
            Eff('agents.torque', lambda k: a.agents.torque[k] + Sum(
                0, a.obstacles.n, lambda w: wall_three(a.agents, a.obstacles, k, w)[1]))]


for kind, t, eff in (('circular', CIRC, walls_circular), ('three_circle', THREE, walls_three)):
    contract(N + 'agent_%s_obstacle' % kind, [('agents', t), ('obstacles', Obstacles)], None,
             requires=all_walls, gen=wall_gen(kind, 0), effects=eff)
    contract(N + 'agent_obstacle', [('agents', t), ('obstacles', Obstacles)], None, variant=kind,
             requires=all_walls, gen=wall_gen(kind, 0), effects=eff)
contract(N + 'agent_obstacle', [('agents', RecT('obstacle', 'n')), ('obstacles', Obstacles)], None, variant='other',
         raises={'InvalidType': lambda a: True})
