"""Logic nodes that combine the simulation's agents, walls and targets with the
functions under contract."""
import ast
import math

import z3

from pyvc.contract import AnyT, ArrView, ObjT
from pyvc.source import FuncVal
from pyvc.values import Native, norm_int, zint
from . import evac, interact, steer
from .steer import cand, either, led as led_one
from .geom import Obstacles, blocked
from .interact import CELL_LISTS, add_to_cells, neighboring_cells, symbolic_pairs
from .common import *
from .field import N, inside_or
from .nodes import AGENTS, L, array
from .motion import VARIANTS
from .shapes import SHAPELY, Geom, GeomT, Targets, Value, Walls, length

FIELDS = (('none', NoneV), ('walls', GeomT('any')))


def node(cls, t, field, **attrs):
    return [('self', ObjT(L + cls, simulation=ObjT(agents=ObjT(array=t), field=field), **attrs))]


field = lambda a: a.self.simulation.field


# -------------------------------------------------------------- exit detection

def view(a):
    f = field(a)
    return NS(position=array(a).position, obstacles=Walls(f.obstacles), detection_range=a.self.detection_range,
              center_door=Doors(f.targets))


class Doors:
    def __init__(self, targets):
        self.n, self.targets = targets.n, targets

    def __getitem__(self, c):
        return self.targets.center(c)


def detected(a):
    g, post, v = array(a), array(a.post), view(a)
    m = v.center_door.n
    some = lambda i: exists(0, m, lambda c: evac.candidate(v, i, c))
    got = lambda i: post.target[i]
    return {
        'agents that are no followers keep their state': forall(0, g.n, lambda i: implies(
            lnot(g.is_follower[i]), land(eq(got(i), g.target[i]), lnot(post.is_follower[i])))),
        'followers that detect no exit keep their state': forall(0, g.n, lambda i: implies(
            land(g.is_follower[i], lnot(some(i))), land(eq(got(i), g.target[i]), post.is_follower[i]))),
        'followers that detect an exit stop following': forall(0, g.n, lambda i: implies(
            land(g.is_follower[i], some(i)), lnot(post.is_follower[i]))),
        'and take an exit that qualifies': forall(0, g.n, lambda i: implies(
            land(g.is_follower[i], some(i)), land(0 <= got(i), got(i) < m, evac.candidate(v, i, got(i))))),
        'the closest one, the lowest number on ties': forall(0, g.n, lambda i: forall(0, m, lambda c: implies(
            land(g.is_follower[i], evac.candidate(v, i, c)), land(
                evac.reach(v, i, got(i)) <= evac.reach(v, i, c),
                implies(c < got(i), evac.reach(v, i, got(i)) < evac.reach(v, i, c))))))}


for nm, t in FIELDS:
    for model, agents in VARIANTS:
        contract(L + 'ExitDetection.update', node('ExitDetection', agents, ObjT(obstacles=t, targets=AnyT(Targets)),
                                                  detection_range=Real),
                 None, variant='%s %s' % (model, nm), export=False, modifies=(AGENTS + '.target', AGENTS + '.is_follower'),
                 requires=lambda a: {'there is a target': 0 < field(a).targets.n, 'targets have vertices': forall(
                     0, field(a).targets.n, lambda k: 0 < field(a).targets.vertices(k).n)},
                 ensures=detected)

# ------------------------------------------------------------------ navigation

QP = 'crowddynamics.core.steering.quickest_path:'
NAV = ('Field.navigation_to_target (needs skfmm, shapely): for each target it returns the mesh grid of the field, a distance '
       'map and a direction map with finite values; the grid\'s indicer is the closure of the real meshgrid')


class NavField(Value):
    """field: targets and, for each of them, a grid with direction map"""
    def __init__(self, name):
        self.name, self.targets = name, Targets(name)
        self.minx, self.miny = SReal(z3.Real(name + '.minx')), SReal(z3.Real(name + '.miny'))
        self.calls = None

    def map(self, t):
        z = zint(norm_int(t))
        dim = lambda k: SInt(z3.Function('%s.%s' % (self.name, k), z3.IntSort(), z3.IntSort())(z))
        val = lambda k: z3.Function('%s.%s' % (self.name, k), *([z3.IntSort()] * 3 + [z3.RealSort()]))
        return (dim('rows'), dim('cols')), [(lambda f: lambda i: SReal(f(z, zint(norm_int(i[0])), zint(norm_int(i[1])))))(
            val(k)) for k in ('u', 'v')]

    def spec_map(self, t):
        sh, fs = self.map(t)
        return tuple(ArrView(sh, f) for f in fs)

    def getattr(self, ex, st, attr, node):
        if attr == 'targets':
            return self.targets
        if attr != 'navigation_to_target':
            raise C.Unsupported('attribute %s of the field' % attr)
        return Native(attr, self.navigation)

    def navigation(self, ex, st, args, kw, node):
        args = list(args)
        for k in ('index', 'step', 'radius', 'strength')[len(args):]:
            args.append(kw.get(k))
        if None in args or len(args) != 4:
            raise C.Unsupported('call of navigation_to_target')
        t, step = args[0], args[1]
        me = ex.top_views.self
        for k, v in zip(('step', 'radius', 'strength'), args[1:]):
            ex.oblige(st, 'the field is asked with the %s of the node' % k, eq(v, getattr(me, k)), 'precondition', node)
        ex.oblige(st, 'the field is asked for one of the targets', land(0 <= lift(t), lift(t) < self.targets.n),
                  'precondition', node)
        sh, fs = self.map(t)
        for d in sh:
            length(ex, st, d.z)
            ex.fact(st, SBool(d.z >= 0))
        dm = tuple(ex.alloc(st, tuple(norm_int(x) for x in sh), 'f8', f) for f in fs)
        return (MGrid(self, step), ex.alloc(st, tuple(norm_int(x) for x in sh), 'f8', ex.fresh_fun('f8', 2, 'dmap')), dm)


class MGrid(Value):
    def __init__(self, field, step):
        self.field, self.step = field, step

    def getattr(self, ex, st, attr, node):
        if attr == 'step':
            return self.step
        if attr != 'indicer':
            raise C.Unsupported('attribute %s of the grid' % attr)
        f = ex.repo.function(QP + 'meshgrid')
        inner = [d for d in f.node.body if isinstance(d, ast.FunctionDef) and d.name == 'indicer']
        if len(inner) != 1:
            raise C.Unsupported('meshgrid without a function indicer')
        return FuncVal(f.module, 'meshgrid.<locals>.indicer', inner[0], closure=(None, dict(
            step=self.step, minx=self.field.minx, miny=self.field.miny)))


def cell(a, k):
    """(row, column, not just below the grid)"""
    f, g, step = field(a), array(a), a.self.step
    x, y = sdiv(g.position[k].x - f.minx, step), sdiv(g.position[k].y - f.miny, step)
    judged = land(*[lor(q <= -1, 0 <= q) for q in (x, y)])
    return floor(y), floor(x), judged


def led(a, k, t):
    i, j, judged = cell(a, k)
    return judged, inside_or(i, j, field(a).spec_map(t), array(a).target_direction[k])


def ways(a, now, done):
    g, post = array(a), array(now)
    k_ = lambda k: g.target[k]
    has = lambda k: land(0 <= k_(k), k_(k) < done)
    w = lambda k: led(a, k, k_(k))
    same_as = lambda p, q: land(eq(p.x, q.x), eq(p.y, q.y))
    return {'agents with a target get the direction at their cell': forall(0, g.n, lambda k: implies(
        land(has(k), w(k)[0]), same_as(post.target_direction[k], w(k)[1]))),
        'agents without that target keep their direction': forall(0, g.n, lambda k: implies(
            lnot(has(k)), same_as(post.target_direction[k], g.target_direction[k])))}


for model, agents in VARIANTS:
    contract(L + 'Navigation.update', node('Navigation', agents, AnyT(NavField), step=Real, radius=Real, strength=Real),
             None, variant=model, export=False, modifies=(AGENTS + '.target_direction',),
             requires=lambda a: {'the step is positive': 0 < a.self.step},
             invariants={0: lambda a, l, it: ways(a, l.post, it)},
             ensures=lambda a: ways(a, a.post, field(a).targets.n))

# --------------------------------------------------------------------- leaders

SM = 'crowddynamics.core.steering.collective_motion:'


def followers(agents, post_agents, obstacles, sight, phi, weight, direction):
    """what holds for the followers and for the others; direction: the returned directions"""
    g, now = agents, post_agents
    a = NS(position=g.position, velocity=g.velocity, is_leader=g.is_leader, is_follower=g.is_follower, target=g.target,
           index_leader=g.index_leader, obstacles=obstacles, sight=sight, phi=phi, weight_position=weight,
           post=NS(target=now.target, index_leader=now.index_leader), result=(direction, Yes()))
    lost = 'without any nothing changes'
    names = [k for k in led_one(a, SInt(0)) if k not in (lost, 'with a strategy', 'without a strategy')]
    out = {k: forall(0, g.n, lambda i, k=k: implies(g.is_follower[i], led_one(a, i)[k])) for k in names}
    none = lambda i: land(lnot(exists(0, g.n, lambda j: cand(a, i, j))), eq(g.index_leader[i], steer.NO_LEADER))
    zero = lambda i: land(eq(direction[i].x, 0.0), eq(direction[i].y, 0.0))
    out['without any strategy the familiar exit is used'] = forall(0, g.n, lambda i: implies(
        land(g.is_follower[i], none(i)), land(eq(now.target[i], g.familiar_exit[i]), eq(
            now.index_leader[i], g.index_leader[i]), zero(i))))
    out['others keep target and leader'] = forall(0, g.n, lambda i: implies(lnot(g.is_follower[i]), land(
        eq(now.target[i], g.target[i]), eq(now.index_leader[i], g.index_leader[i]))))
    return out


class Yes:
    def __getitem__(self, i):
        return lift(True)


def roles(g):
    return {'leaders do not follow': forall(0, g.n, lambda i: lnot(land(g.is_leader[i], g.is_follower[i]))),
            'remembered leaders are leaders': forall(0, g.n, lambda i: lor(
                eq(g.index_leader[i], steer.NO_LEADER), land(g.index_leader[i] >= 0, g.index_leader[i] < g.n,
                                                             g.is_leader[g.index_leader[i]])))}


def obeys(a):
    out = followers(a.agents, a.post.agents, a.obstacles, a.sight, a.phi, a.weight_position_leader, a.result)
    out['others get no direction'] = forall(0, a.agents.n, lambda i: implies(lnot(a.agents.is_follower[i]), land(
        eq(a.result[i].x, 0.0), eq(a.result[i].y, 0.0))))
    return out


WEIGHTS = (0.45 * math.pi, 0.4)


def node_obeys(a):
    g, now = array(a), array(a.post)
    out = followers(g, now, Walls(field(a).obstacles), a.self.sight, 0.45 * SReal(PI), lift(0.4), now.target_direction)
    out['others keep their direction'] = forall(0, g.n, lambda i: implies(lnot(g.is_follower[i]), land(
        eq(now.target_direction[i].x, g.target_direction[i].x), eq(now.target_direction[i].y, g.target_direction[i].y))))
    return out


for model, agents in VARIANTS:
    contract(SM + 'leader_follower_interaction',
             [('agents', agents), ('obstacles', Obstacles), ('sight', Real), ('phi', Real), ('weight_position_leader', Real)],
             Rows2(), variant=model, modifies=('agents.target', 'agents.index_leader'), search=False,
             opt={'abstract': ['blocked']}, requires=lambda a: roles(a.agents), ensures=obeys)
    for nm, t in FIELDS:
        contract(L + 'LeaderFollower.update', node('LeaderFollower', agents, ObjT(obstacles=t), sight=Real), None,
                 variant='%s %s' % (model, nm), export=False, opt={'abstract': ['blocked']},
                 modifies=tuple(AGENTS + '.' + k for k in ('target', 'index_leader', 'target_direction')),
                 requires=lambda a: roles(array(a)), ensures=node_obeys)

# ----------------------------------------------------- leaders and herding

def herded(g, now, obstacles, sight, phi, pairs, direction):
    """target and leader after following leaders (within 20 m) or the neighbours within `sight`"""
    a = NS(position=g.position, velocity=g.velocity, is_leader=g.is_leader, index_leader=g.index_leader,
           obstacles=obstacles, sight=lift(20.0), phi=phi)
    n, t, m, t0, m0 = g.n, now.target, now.index_leader, g.target, g.index_leader
    found = lambda i: exists(0, n, lambda j: cand(a, i, j))
    alone = lambda i: land(g.is_follower[i], lnot(found(i)), eq(m0[i], steer.NO_LEADER))
    apart = lambda i: forall(0, pairs.n, lambda l: implies(lor(eq(pairs.i(l), i), eq(pairs.j(l), i)), lor(
        blocked(g.position[pairs.i(l)], g.position[pairs.j(l)], obstacles),
        sight <= norm2(g.position[pairs.i(l)] - g.position[pairs.j(l)]))))
    zero = lambda i: land(eq(direction[i].x, 0.0), eq(direction[i].y, 0.0))
    each = lambda f: forall(0, n, f)
    return {
        'the closest leader is followed': each(lambda i: implies(land(g.is_follower[i], found(i)), land(
            m[i] >= 0, m[i] < n, steer.closest(a, i, m[i]), either(
                blocked(g.position[i], g.position[m[i]], obstacles),
                land(eq(t[i], t0[m[i]]), eq(m[i], m0[i])), eq(t[i], steer.NO_TARGET))))),
        'a remembered leader\'s target is taken': each(lambda i: implies(
            land(g.is_follower[i], lnot(found(i)), ne(m0[i], steer.NO_LEADER)), land(eq(t[i], t0[m0[i]]), eq(m[i], m0[i])))),
        'without leader the familiar exit or the neighbours': each(lambda i: implies(alone(i), land(
            eq(m[i], m0[i]), lor(eq(t[i], g.familiar_exit[i]), eq(t[i], steer.NO_TARGET))))),
        'without neighbours in sight the familiar exit is used': each(lambda i: implies(
            land(alone(i), apart(i)), land(eq(t[i], g.familiar_exit[i]), zero(i)))),
        'standing agents without leader use the familiar exit': each(lambda i: implies(
            land(alone(i), eq(norm2(g.velocity[i]), 0.0)), land(eq(t[i], g.familiar_exit[i]), zero(i)))),
        'others keep target and leader': each(lambda i: implies(lnot(g.is_follower[i]), land(
            eq(t[i], t0[i]), eq(m[i], m0[i]))))}


def herd_pairs(g, sight, size):
    ps, n = symbolic_pairs(sight), g.n
    return dict(roles(g), **steer.neighbour_req(NS(position=g.position, pairs_=ps, size_nearest_other=size, sight=sight)))


def herd_obeys(a):
    out = herded(a.agents, a.post.agents, a.obstacles, a.sight, a.phi, symbolic_pairs(a.sight), a.result)
    out['others get no direction'] = forall(0, a.agents.n, lambda i: implies(lnot(a.agents.is_follower[i]), land(
        eq(a.result[i].x, 0.0), eq(a.result[i].y, 0.0))))
    return out


def herd_node_obeys(a):
    g, now = array(a), array(a.post)
    out = herded(g, now, Walls(field(a).obstacles), a.self.sight_follower, 0.45 * SReal(PI),
                 symbolic_pairs(a.self.sight_follower), now.target_direction)
    out['others keep their direction'] = forall(0, g.n, lambda i: implies(lnot(g.is_follower[i]), land(
        eq(now.target_direction[i].x, g.target_direction[i].x), eq(now.target_direction[i].y, g.target_direction[i].y))))
    return out


for model, agents in VARIANTS:
    contract(SM + 'leader_follower_with_herding_interaction',
             [('agents', agents), ('obstacles', Obstacles), ('sight', Real), ('size_nearest_other', Int),
              ('phi', Real), ('weight_position_herding', Real), ('weight_position_leader', Real),
              ('weight_direction_leader', Real)], Rows2(), variant=model, modifies=('agents.target', 'agents.index_leader'),
             search=False, opt={'abstract': ['blocked'], 'add_to_cells': add_to_cells,
                                'neighboring_cells': neighboring_cells, 'cell_size': 'sight',
                                'forget': (SM + 'herding_interaction', SM + 'normalize_nx2', 'crowddynamics.core.vector2D:weighted_average')},
             requires=lambda a: herd_pairs(a.agents, a.sight, a.size_nearest_other), ensures=herd_obeys)
    for nm, t in FIELDS:
        contract(L + 'LeaderFollowerWithHerding.update',
                 node('LeaderFollowerWithHerding', agents, ObjT(obstacles=t), sight_follower=Real, size_nearest_other=Int), None,
                 variant='%s %s' % (model, nm), export=False, opt={'abstract': ['blocked']},
                 modifies=tuple(AGENTS + '.' + k for k in ('target', 'index_leader', 'target_direction')),
                 requires=lambda a: herd_pairs(array(a), a.self.sight_follower, a.self.size_nearest_other),
                 ensures=herd_node_obeys)

# --------------------------------------------------------- interaction nodes

def agents_of(a):
    return NS(agents=array(a), cell_size=a.self.cell_size)


def agent_effects(kind):
    def eff(a):
        x = agents_of(a)
        pairs = lambda f, s: lambda k: interact.sum_pairs(x, k, f, s, interact.block_pairs_of)
        if kind == 'circular':
            return [Eff(AGENTS + '.force', lambda k: x.agents.force[k] + pairs(interact.pair_circular, interact.vsum)(k))]
        return [Eff(AGENTS + '.force', lambda k: x.agents.force[k] + pairs(
            lambda *q: interact.pair_three(*q)[:2], interact.vsum)(k)),
                Eff(AGENTS + '.torque', lambda k: x.agents.torque[k] + pairs(
                    lambda *q: interact.pair_three(*q)[2:], Sum)(k))]
    return eff


def pairs_ok(kind):
    def req(a):
        x = agents_of(a)
        r = interact.block_req(x)
        if kind == 'three_circle':
            r['shoulders in place'] = forall(0, x.agents.n, lambda k: interact.rigid(x.agents, k))
        return r
    return req


def wall_effects(kind):
    def eff(a):
        x = NS(agents=array(a), obstacles=Walls(field(a).obstacles))
        return [Eff(e.path.replace('agents.', AGENTS + '.'), e.value) for e in {
            'circular': interact.walls_circular, 'three_circle': interact.walls_three}[kind](x)]
    return eff


contract(L + 'AgentAgentInteractions._default_cell_size',
         [('self', ObjT(L + 'AgentAgentInteractions', sight_soc=Real, max_agent_radius=Real))], Real, export=False,
         ensures=lambda a: {'reaches every agent in sight': a.result >= a.self.sight_soc + 2 * a.self.max_agent_radius})
for model, agents in VARIANTS:
    contract(L + 'AgentAgentInteractions.update', node('AgentAgentInteractions', agents, ObjT(), cell_size=Real), None,
             variant=model, export=False, requires=pairs_ok(model), effects=agent_effects(model))
    for nm, t in FIELDS:
        contract(L + 'AgentObstacleInteractions.update', node('AgentObstacleInteractions', agents, ObjT(obstacles=t)), None,
                 variant='%s %s' % (model, nm), export=False, effects=wall_effects(model), requires=lambda a: interact.all_walls(
                     NS(obstacles=Walls(field(a).obstacles))))

prop('C12', *[interact.N + f for f in (
    'interaction_agent_agent_circular', 'interaction_agent_agent_three_circle', 'agent_agent_circular',
    'agent_agent_three_circle', 'agent_agent_block_list')], L + 'AgentAgentInteractions.update',
    L + 'AgentAgentInteractions._default_cell_size', drivers=['nodes_forces'], assume=[CELL_LISTS])
prop('C13', *[interact.N + f for f in (
    'interaction_agent_circular_obstacle', 'interaction_agent_three_circle_obstacle', 'agent_circular_obstacle',
    'agent_three_circle_obstacle', 'agent_obstacle')], L + 'AgentObstacleInteractions.update', drivers=['nodes_forces'], assume=[SHAPELY])
prop('C37', SM + 'leader_follower_interaction_brute', SM + 'leader_follower_interaction', L + 'LeaderFollower.update',
     SM + 'leader_follower_with_herding_interaction', L + 'LeaderFollowerWithHerding.update', drivers=['leaders'], assume=[SHAPELY, CELL_LISTS])
prop('C29', N + 'is_inside', N + 'getdefault', L + 'Navigation.update', drivers=['nodes_nav'], assume=[NAV])
prop('C27', evac.E + 'exit_detection', L + 'ExitDetection.update', drivers=['nodes_exit'], assume=[SHAPELY])
