"""C26: update methods of crowddynamics/simulation/logic.py"""
import z3

from pyvc.contract import AnyT, DictT, ObjT, stream_at
from pyvc.source import *
from pyvc.values import ArrRef, Native, Bound, Seq, norm_int, zint
from .common import *
from .motion import VARIANTS, agent_adjust_force, agent_adjust_torque
from .integ import (PW, XV, attached, clip, inertias, keeps, masses, moves, r_verlet, steps_ok, t_verlet, timestep_of)

L = 'crowddynamics.simulation.logic:'
FL = 'crowddynamics.core.motion.fluctuation:'
RN = 'crowddynamics.core.rand:'


def sim(t, **more):
    return ObjT(agents=ObjT(array=t), data=DictT(dt=Real, time_tot=Real, iterations=Int, inactive=Int), **more)


def node(cls, t, **attrs):
    return [('self', ObjT(L + cls, simulation=sim(t), **attrs))]


AGENTS = 'self.simulation.agents.array'
array = lambda a: a.self.simulation.agents.array
is_three = lambda g: 'orientation' in g._f


def only(*fields):
    return lambda a: [Eff('%s.%s' % (AGENTS, f), v) for f, v in fields if f in array(a)._f]


def zeros(a):
    g = array(a)
    return [Eff(AGENTS + '.force', lambda k: V2(0.0, 0.0))] + \
        ([Eff(AGENTS + '.torque', lambda k: lift(0.0))] if is_three(g) else [])


def adjusted(a):
    g = array(a)
    return [Eff(AGENTS + '.force', lambda k: g.force[k] + agent_adjust_force(g, k))] + \
        ([Eff(AGENTS + '.torque', lambda k: g.torque[k] + agent_adjust_torque(g, k))] if is_three(g) else [])


# ------------------------------------------------------------- fluctuation
contract(RN + 'truncnorm', [('start', Real), ('end', Real), ('loc', Real), ('scale', Arr('f8', 'n')),
                            ('abs_scale', NoneV), ('size', Int)], Arr('f8', 'n'), draws=lambda a: (0, a.size),
         requires=lambda a: {'one scale per number': eq(a.size, a.scale.n), 'ends in order': a.start <= a.end},
         ensures=lambda a: {'truncated normal numbers, scaled and moved': forall(0, a.scale.n, lambda k: land(
             eq(a.result[k], a.loc + a.scale[k] * a.draw(k, 'truncnorm')),
             a.start <= a.draw(k, 'truncnorm'), a.draw(k, 'truncnorm') <= a.end))})


def kick(m, s, u, z):
    """force of size mass * scale * z in the direction 2 pi u"""
    return V2(cos(TWO_PI * u), sin(TWO_PI * u)) * (m * (s * z))


contract(FL + 'force_fluctuation', [('mass', Arr('f8', 'n')), ('scale', Arr('f8', 'n'))], Rows2(),
         draws=lambda a: (a.mass.n, a.mass.n),
         ensures=lambda a: {'a force of random size in a random direction': forall(0, a.mass.n, lambda k: land(
             eq(a.result[k].x, kick(a.mass[k], a.scale[k], a.draw(k), a.draw(k, 'truncnorm')).x),
             eq(a.result[k].y, kick(a.mass[k], a.scale[k], a.draw(k), a.draw(k, 'truncnorm')).y))),
             'up to three standard deviations': forall(0, a.mass.n, lambda k: land(
                 0 <= a.draw(k, 'truncnorm'), a.draw(k, 'truncnorm') <= 3))})
contract(FL + 'torque_fluctuation', [('inertia_rot', Arr('f8', 'n')), ('scale', Arr('f8', 'n'))], Arr('f8', 'n'),
         draws=lambda a: (0, a.scale.n),
         ensures=lambda a: {'a random torque': forall(0, a.scale.n, lambda k: eq(
             a.result[k], a.inertia_rot[k] * (a.scale[k] * a.draw(k, 'truncnorm')))),
             'up to three standard deviations': forall(0, a.scale.n, lambda k: land(
                 -3 <= a.draw(k, 'truncnorm'), a.draw(k, 'truncnorm') <= 3))})


def shaken(a):
    g = array(a)
    n = g.n
    out = [Eff(AGENTS + '.force', lambda k: g.force[k] + kick(
        g.mass[k], g.std_rand_force[k], stream_at('uniform', 0, k), stream_at('truncnorm', 0, k)))]
    if is_three(g):
        out.append(Eff(AGENTS + '.torque', lambda k: g.torque[k] + g.inertia_rot[k] * (
            g.std_rand_torque[k] * stream_at('truncnorm', n, k))))
    return out


# -------------------------------------------------------------- integrator

def as_step(a):
    return NS(agents=array(a), dt_min=a.self.dt_min, dt_max=a.self.dt_max)


def stepped(a):
    g, dt = array(a), a.post.self.simulation.data.dt
    b = as_step(a)
    out = moves(b, t_verlet, XV, dt) + keeps(b, 'force_prev', 'force')
    if is_three(g):
        out += moves(b, r_verlet, PW, dt) + attached(b, t_verlet, r_verlet, dt) + keeps(b, 'torque_prev', 'torque')
    for e in out:
        e.path = AGENTS + e.path[len('agents'):]
    return out


def recorded(a):
    old, new = a.self.simulation.data, a.post.self.simulation.data
    return dict({'the timestep is ' + k: v for k, v in timestep_of(as_step(a), new.dt).items()}, **{
        'the timestep is added to the total time': eq(new.time_tot, old.time_tot + new.dt),
        'other data stay': land(eq(new.iterations, old.iterations), eq(new.inactive, old.inactive)) if new.keys_ == old.keys_
        else lift(False)})


# ------------------------------------------------------------------ domain

class Path:
    """matplotlib.path.Path: decides each point on its own, by its coordinates"""
    def __init__(self, name):
        self.inside = z3.Function('inside:' + name, z3.RealSort(), z3.RealSort(), z3.BoolSort())

    def has(self, p):
        return SBool(self.inside(p.x.z, p.y.z))

    def getattr(self, ex, st, attr, node):
        if attr != 'contains_points':
            raise C.Unsupported('attribute %s of a path' % attr)

        def contains(ex, st, args, kw, node):
            sh, _, get = ex.natives.as_array(ex, st, args[0])
            if len(sh) != 2 or kw or len(args) != 1:
                raise C.Unsupported('contains_points with these arguments')
            ex.same_dim(st, sh[1], 2, node)
            return ex.alloc(st, (sh[0],), 'b1', lambda i: SBool(self.inside(lift(get((i[0], 0))).z, lift(get((i[0], 1))).z)))
        return Native('contains_points', contains)


PATHS = ('matplotlib.path.Path.contains_points (not installed): decides for each point of the array, by its coordinates '
         'alone, whether it is inside')


def marked(a):
    g = array(a)
    return [Eff(AGENTS + '.active', lambda k: a.self.domain_path.has(g.position[k]))]


TOPS = []
for nm, t in VARIANTS:
    three = nm == 'three_circle'

    def put(cls, attrs=None, **kw):
        contract(L + cls + '.update', node(cls, t, **(attrs or {})), None, variant=nm, export=False, **kw)
        TOPS.append(L + cls + '.update')
    put('Reset', effects=zeros)
    put('Integrator', dict(dt_min=Real, dt_max=Real), effects=stepped, ensures=recorded, modifies=('self.simulation.data',),
        requires=lambda a, three=three: dict(steps_ok(as_step(a)), **masses(as_step(a)), **(
            inertias(as_step(a)) if three else {})))
    put('Adjusting', effects=adjusted, requires=lambda a, three=three: {
        'adjusting times are not zero': forall(0, array(a).n, lambda k: land(
            ne(array(a).tau_adj[k], 0.0), *([ne(array(a).tau_rot[k], 0.0)] if three else [])))})
    put('Fluctuation', effects=shaken, draws=lambda a, three=three: (array(a).n, array(a).n * (2 if three else 1)))
    put('InsideDomain', dict(domain_path=AnyT(Path)), effects=marked, modifies=('self.simulation.data',),
        ensures=lambda a: {'the records of time stay': land(*[eq(getattr(a.post.self.simulation.data, f), getattr(
            a.self.simulation.data, f)) for f in ('dt', 'time_tot', 'iterations')])})

ORI = 'crowddynamics.core.steering.orientation:'
THREE_ = dict(VARIANTS)['three_circle']
contract(ORI + 'orient_towards_target_direction', [('agents', THREE_)], None,
         effects=lambda a: [Eff('agents.target_orientation', lambda k: atan2(a.agents.target_direction[k].y, a.agents.target_direction[k].x))])
contract(L + 'Orientation.update', node('Orientation', THREE_), None, variant='three_circle', export=False,
         effects=lambda a: [Eff(AGENTS + '.target_orientation', lambda k: atan2(array(a).target_direction[k].y, array(a).target_direction[k].x))])
contract(L + 'Orientation.update', node('Orientation', dict(VARIANTS)['circular']), None, variant='circular', export=False)
TOPS += [ORI + 'orient_towards_target_direction', L + 'Orientation.update']

prop('C26', FL + 'force_fluctuation', FL + 'torque_fluctuation', *dict.fromkeys(TOPS), drivers=['nodes'], assume=[PATHS])


# ------------------------------------------------------------------ targets
# A node keeps three lists of equal length (any length): record names, paths
# and marks. Names are different from each other (target_0, target_1, ...); the
# records stored under them are an array `counts` beside the fixed entries.
NAME = z3.Function('name', z3.IntSort(), z3.IntSort())


def targets_of(ex):
    m = SInt(z3.Int('len.targets'))
    ex.nonneg.add(m.z.get_id())
    return m


class Listed:
    def getitem(self, ex, st, idx, node):
        s = self.sequence(ex, st)
        return s.get(ex.index(st, idx, norm_int(s.n), node))


class Names(Listed):
    def sequence(self, ex, st):
        return Seq(targets_of(ex), lambda i: SInt(NAME(zint(i))))


class Paths(Listed):
    def __init__(self, name):
        self.inside = z3.Function('inside:' + name, z3.IntSort(), z3.RealSort(), z3.RealSort(), z3.BoolSort())

    def has(self, i, p):
        return SBool(self.inside(lift(i).z, p.x.z, p.y.z))

    def sequence(self, ex, st):
        def get(i):
            p = Path('')
            p.inside = lambda x, y: self.inside(zint(i), x, y)
            return p
        return Seq(targets_of(ex), get)


class Records:
    """dictionary: fixed entries and those stored under the names of targets"""
    def __init__(self, fixed, counts):
        self.fixed, self.counts = fixed, counts

    def setitem(self, ex, st, idx, v, node):
        if isinstance(idx, SInt) and z3.is_app(idx.z) and idx.z.decl().eq(NAME):
            return ex.natives.setitem(ex, st, self.counts, SInt(idx.z.arg(0)), v, node)
        if not isinstance(idx, str):
            raise C.Unsupported('record under a name of another kind')
        return ex.natives.setitem(ex, st, self.fixed, idx, v, node)

    def getitem(self, ex, st, idx, node):
        if isinstance(idx, SInt) and z3.is_app(idx.z) and idx.z.decl().eq(NAME):
            return ex.natives.getitem(ex, st, self.counts, SInt(idx.z.arg(0)), node)
        if not isinstance(idx, str):
            raise C.Unsupported('record under a name of another kind')
        return ex.natives.getitem(ex, st, self.fixed, idx, node)


class RecordsT(DictT):
    def sym(self, ex, st, name, env):
        return Records(super().sym(ex, st, name, env), Arr('i8', 'targets').sym(ex, st, name + '.counts', env))

    def view(self, ex, st, v):
        o = super().view(ex, st, v.fixed)
        o.counts = Arr('i8', 'targets').view(ex, st, v.counts)
        return o


DATA = 'self.simulation.data'
TRECORDS = RecordsT(dt=Real, time_tot=Real, iterations=Int, inactive=Int)


def in_target(a, i, k):
    return lor(a.self.reached_by[i, k], a.self.paths.has(i, array(a).position[k]))


for nm, t in VARIANTS:
    contract(L + 'TargetReached.update', [('self', ObjT(
        L + 'TargetReached', simulation=ObjT(agents=ObjT(array=t), data=TRECORDS), names=AnyT(lambda nm: Names()),
        paths=AnyT(Paths), reached_by=Arr('b1', 'targets', 'n')))], None, variant=nm, export=False, effects=lambda a: [
            Eff('self.reached_by', lambda i, k: in_target(a, i, k), rank=2),
            Eff(DATA + '.counts', lambda i: Sum(0, array(a).n, lambda k: ite(in_target(a, i, k), 1, 0)))])

prop('C41', L + 'TargetReached.update', drivers=['nodes_target'], assume=[
    PATHS, 'TargetReached: names of targets are different from each other and from the other records (built as target_<number>), '
    'one mark array and one path per name, mark arrays not shared'])
