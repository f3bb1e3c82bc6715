"""C17: overlap tests of crowddynamics/simulation/agents.py"""
from pyvc.contract import ObjT
from .common import *
from .dist import R3, T3, circle_line, circles
from .geom import Obstacles
from .interact import all_walls, wall_gen
from .integ import INTEGRATORS
from .motion import CIRC, THREE

AG = 'crowddynamics.simulation.agents:'


def discs(g, k):
    return ((g.position[k], g.r_t[k]), (g.position_ls[k], g.r_s[k]), (g.position_rs[k], g.r_s[k]))


def any_agent(a, f):
    return exists(0, a.agents.n, f)


def three(a, k):
    return lor(*[circles(x, r, y, s) < 0 for x, r in discs(a.agents, k) for y, s in zip(a.x, a.r)])


def near_gen(kind):
    """group around the origin, body near one of its members or near the origin"""
    from pyvc.contract import gen_rec

    def gen(rng):
        n = rng.randint(0, 5)
        g = gen_rec(rng, kind, n, {}, False)
        f = g['fields']
        c = [rng.uniform(-3, 3), rng.uniform(-3, 3)]
        if n and rng.random() < 0.7:
            p = f[rng.choice([nm for nm in ('position', 'position_ls') if nm in f])][2]
            k = rng.randrange(n)
            c = [p[2 * k] + rng.uniform(-0.8, 0.8), p[2 * k + 1] + rng.uniform(-0.8, 0.8)]
        v = lambda dx, dy: {'t': 'arr', 'dtype': 'f8', 'shape': [2], 'data': [c[0] + dx, c[1] + dy]}
        r = lambda: {'t': 'f', 'v': rng.choice([0.0, 0.1, 0.2, 0.255, rng.uniform(0, 0.6)])}
        if kind == 'circular':
            return [g, v(0, 0), r()]
        d = [rng.uniform(-0.4, 0.4), rng.uniform(-0.4, 0.4)]
        return [g, {'t': 'tup', 'v': [v(0, 0), v(*d), v(-d[0], -d[1])]}, {'t': 'tup', 'v': [r(), r(), r()]}]
    return gen


contract(AG + 'overlapping_circles', [('agents', CIRC), ('x', Vec2), ('r', Real)], Bool, gen=near_gen('circular'),
         ensures=lambda a: {'exactly when one of the group is nearer than touching': iff(a.result, any_agent(
             a, lambda k: circles(a.agents.position[k], a.agents.radius[k], a.x, a.r) < 0))})
contract(AG + 'overlapping_three_circles', [('agents', THREE), ('x', T3), ('r', R3)], Bool, gen=near_gen('three_circle'),
         ensures=lambda a: {'exactly when one of the group is nearer than touching': iff(
             a.result, any_agent(a, lambda k: three(a, k)))})
contract(AG + 'overlapping_circle_line', [('agents', CIRC), ('obstacles', Obstacles)], Bool, requires=all_walls,
         gen=wall_gen('circular', 0),
         ensures=lambda a: {'exactly when one of the group overlaps a wall': iff(a.result, any_agent(
             a, lambda k: exists(0, a.obstacles.n, lambda w: circle_line(
                 a.agents.position[k], a.agents.radius[k], a.obstacles.p0[w], a.obstacles.p1[w])[0] < 0)))})
contract(AG + 'overlapping_three_circle_line', [('agents', THREE), ('obstacles', Obstacles)], Bool, requires=all_walls,
         gen=wall_gen('three_circle', 0),
         ensures=lambda a: {'exactly when one of the group overlaps a wall': iff(a.result, any_agent(
             a, lambda k: exists(0, a.obstacles.n, lambda w: lor(*[circle_line(
                 x, r, a.obstacles.p0[w], a.obstacles.p1[w])[0] < 0 for x, r in discs(a.agents, k)]))))})

# the methods of the agent types
DISC = ObjT(AG + 'Circular', position=Vec2, radius=Real)
BODY = ObjT(AG + 'ThreeCircle', position=Vec2, position_ls=Vec2, position_rs=Vec2, r_t=Real, r_s=Real, r_ts=Real, orientation=Real)
same_fields = lambda a, *names: land(*[eq(getattr(a.post.self, f), getattr(a.self, f)) for f in names])


def body(s):
    return NS(x=(s.position, s.position_ls, s.position_rs), r=(s.r_t, s.r_s, s.r_s))


contract(AG + 'Circular.overlapping', [('self', DISC), ('others', CIRC)], Bool,
         ensures=lambda a: {'exactly when one of the others is nearer than touching': iff(a.result, exists(
             0, a.others.n, lambda k: circles(a.others.position[k], a.others.radius[k], a.self.position, a.self.radius) < 0))})
contract(AG + 'ThreeCircle.overlapping', [('self', BODY), ('others', THREE)], Bool,
         ensures=lambda a: {'exactly when one of the others is nearer than touching': iff(a.result, exists(
             0, a.others.n, lambda k: three(NS(agents=a.others, x=body(a.self).x, r=body(a.self).r), k)))})
contract(AG + 'Circular.place', [('self', DISC), ('position', Vec2)], None,
         ensures=lambda a: {'at the position': land(*[eq(a.post.self.position[i], a.position[i]) for i in (0, 1)]),
                            'the size stays': same_fields(a, 'radius')}, modifies=('self',))


def shoulder(a, sign):
    o = V2(sin(a.self.orientation), -cos(a.self.orientation))
    return V2(a.position[0], a.position[1]) + o * a.self.r_ts * sign


contract(AG + 'ThreeCircle.place', [('self', BODY), ('position', Vec2)], None, modifies=('self',), ensures=lambda a: {
    'at the position': land(*[eq(a.post.self.position[i], a.position[i]) for i in (0, 1)]),
    'left shoulder': land(*[eq(a.post.self.position_ls[i], shoulder(a, -1.0)[i]) for i in (0, 1)]),
    'right shoulder': land(*[eq(a.post.self.position_rs[i], shoulder(a, 1.0)[i]) for i in (0, 1)]),
    'size and orientation stay': same_fields(a, 'r_t', 'r_s', 'r_ts', 'orientation')})

prop('C17', AG + 'overlapping_circles', AG + 'overlapping_three_circles', AG + 'overlapping_circle_line',
     AG + 'overlapping_three_circle_line', AG + 'Circular.overlapping', AG + 'ThreeCircle.overlapping', drivers=['bodies'])
prop('C16', AG + 'shoulders', *INTEGRATORS, AG + 'ThreeCircle.place', drivers=['bodies'])
