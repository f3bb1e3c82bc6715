"""C25: evaluation order and control of a simulation. Calls of the environment
(nodes, exit condition, queue) are recorded in ghost attributes of `self`."""
import z3

from pyvc import npmodel
from pyvc.contract import AnyT, DictT, ObjT
from pyvc.core import SBool, SInt
from pyvc.source import *
from pyvc.values import ArrRef, Native, Obj, PyRaise, Seq, norm_int, zint
from .common import *

B = 'crowddynamics.simulation.base:'
MU = 'crowddynamics.simulation.multiagent:'
SELF = ('param', 'self')


def ghost(st, name):
    return st.heap[(SELF, 'ghost_' + name)]


def put(st, name, v):
    st.heap[(SELF, 'ghost_' + name)] = v


# ------------------------------------------------------------------ one update
# anytree's PostOrderIter(root): the nodes below root, numbered 0 .. n-1 in
# post-order (children first). Other roots have other nodes.

class Node:
    def __init__(self, tree, i):
        self.tree, self.i = tree, i

    def getattr(self, ex, st, attr, node):
        if attr == 'root':
            return Handle(True)
        if attr != 'update':
            raise C.Unsupported('attribute %s of a node' % attr)

        def update(ex, st, args, kw, node):
            if args or kw:
                raise PyRaise('TypeError')
            if self.tree is not True:
                raise C.Unsupported('update of a node of a part of the tree')
            t = ghost(st, 'clock')
            nat = ex.natives
            calls = ghost(st, 'calls')
            k = SInt(zint(self.i))
            nat.setitem(ex, st, calls, k, C.sadd(nat.getitem(ex, st, calls, k, node), lift(1)), node)
            nat.setitem(ex, st, ghost(st, 'when'), k, t, node)
            nat.setitem(ex, st, ghost(st, 'seen'), k, ex.natives.getitem(ex, st, st.heap[(SELF, 'data')], 'iterations', node), node)
            put(st, 'clock', C.sadd(lift(t), lift(1)))
        return Native('update', update)


class Handle:
    """a node of the tree; the root when `top`"""
    def __init__(self, top=False):
        self.top = top

    def getattr(self, ex, st, attr, node):
        if attr == 'root':
            return Handle(True)
        raise C.Unsupported('attribute %s of a node' % attr)


def post_order(ex, st, args, kw, node):
    if len(args) != 1 or kw or not isinstance(args[0], Handle) or not args[0].top:
        raise C.Unsupported('iteration over a part of the tree')
    n = SInt(z3.Int('len.nodes'))
    ex.nonneg.add(n.z.get_id())
    return Seq(n, lambda i: Node(True, i))


for nm in ('anytree.iterators.PostOrderIter', 'anytree.PostOrderIter', 'anytree.iterators.postorderiter.PostOrderIter'):
    npmodel.FUNCS[nm] = lambda ex, st, a, k, node: post_order(ex, st, a, k, node)

nodes = Arr('i8', 'nodes')
contract(MU + 'MultiAgentSimulation.update', [('self', ObjT(
    MU + 'MultiAgentSimulation', logic=AnyT(lambda nm: Handle()), data=DictT(iterations=Int, time_tot=Real, dt=Real),
    ghost_clock=Int, ghost_calls=nodes, ghost_when=nodes, ghost_seen=nodes))], None, export=False, modifies=('self', 'self.data'),
    effects=lambda a: [Eff('self.ghost_calls', lambda i: a.self.ghost_calls[i] + 1),
                       Eff('self.ghost_when', lambda i: a.self.ghost_clock + i),
                       Eff('self.ghost_seen', lambda i: a.self.data.iterations)],
    ensures=lambda a: {
        'as many evaluations as nodes': eq(a.post.self.ghost_clock, a.self.ghost_clock + a.self.ghost_calls.n),
        'then the iteration count grows by one': eq(a.post.self.data.iterations, a.self.data.iterations + 1),
        'other records stay': land(eq(a.post.self.data.time_tot, a.self.data.time_tot), eq(a.post.self.data.dt, a.self.data.dt))})

# ------------------------------------------------------------------------- run
# the k-th answer of the exit condition is STOP(k): any sequence of answers

STOP = z3.Function('stop', z3.IntSort(), z3.BoolSort())
stop = lambda k: SBool(STOP(lift(k).z))


class Condition:
    def call(self, ex, st, args, kw, node):
        if kw or len(args) != 1:
            raise PyRaise('TypeError')
        k = lift(ghost(st, 'asked'))
        ex.oblige(st, 'the exit condition is asked about the simulation', lift(
            isinstance(args[0], Obj) and args[0].id == SELF), 'postcondition', node)
        ex.oblige(st, 'the exit condition is asked before each update', eq(k, ghost(st, 'updates')), 'postcondition', node)
        put(st, 'asked', C.sadd(k, lift(1)))
        return stop(k)


def updating(nm):
    def update(ex, st, args, kw, node):
        if args or kw:
            raise PyRaise('TypeError')
        k = lift(ghost(st, 'updates'))
        put(st, 'updates', C.sadd(k, lift(1)))
    return Native('update', update)


def running(a, l, it):
    s = l.post.self
    return {'as many updates as answers': land(eq(s.ghost_asked, s.ghost_updates), 0 <= s.ghost_updates),
            'no answer so far was to stop': forall(0, s.ghost_asked, lambda k: lnot(stop(k)))}


def at_start(a):
    return {'nothing done yet': land(eq(a.self.ghost_asked, 0), eq(a.self.ghost_updates, 0))}


contract(B + 'SimulationBase.run', [('self', ObjT(
    B + 'SimulationBase', exit_condition=AnyT(lambda nm: Condition()), update=AnyT(updating), ghost_asked=Int, ghost_updates=Int))],
    None, variant='condition', export=False, modifies=('self',), requires=at_start, invariants={0: running},
    ensures=lambda a: {
        'the last answer is to stop': stop(a.post.self.ghost_updates),
        'none before was': forall(0, a.post.self.ghost_updates, lambda k: lnot(stop(k))),
        'one answer more than updates': eq(a.post.self.ghost_asked, a.post.self.ghost_updates + 1)})
# without an exit condition no path leads to the end
contract(B + 'SimulationBase.run', [('self', ObjT(
    B + 'SimulationBase', exit_condition=NoneV, update=AnyT(updating), ghost_asked=Int, ghost_updates=Int))],
    None, variant='none', export=False, opt={'endless': True}, modifies=('self',), requires=at_start,
    invariants={0: lambda a, l, it: {'only updates': eq(l.post.self.ghost_asked, 0)}},
    ensures=lambda a: {'never ends': lift(False)})

# ----------------------------------------------------------------- the process
# simulation.run() ends or raises a simulation error; queue and event record

SIM = ('param', 'self.simulation')


class Logger:
    """messages are not part of the property"""
    def getattr(self, ex, st, attr, node):
        return Native(attr, lambda ex, st, a, k, node: None)


npmodel.FUNCS['logging.getLogger'] = lambda ex, st, a, k, node: Logger()


class Event:
    def getattr(self, ex, st, attr, node):
        if attr == 'is_set':
            return Native(attr, lambda ex, st, a, k, node: ghost(st, 'set'))
        if attr == 'set':
            return Native(attr, lambda ex, st, a, k, node: put(st, 'set', SBool(z3.BoolVal(True))))
        raise C.Unsupported('attribute %s of an event' % attr)


class Queue:
    def getattr(self, ex, st, attr, node):
        if attr != 'put':
            raise C.Unsupported('attribute %s of a queue' % attr)

        def put_(ex, st, args, kw, node):
            mark = len(args) == 1 and not kw and isinstance(args[0], ClassVal) and args[0].node.name == 'EndProcess'
            ex.oblige(st, 'only the end marker is put on the queue', lift(mark), 'postcondition', node)
            put(st, 'put', C.sadd(lift(ghost(st, 'put')), lift(1)))
        return Native('put', put_)


def simulating(nm):
    def run(ex, st, args, kw, node):
        from pyvc.execu import Out, State
        if args or kw:
            raise PyRaise('TypeError')
        ex.oblige(st, 'nothing on the queue before the simulation ran', eq(ghost(st, 'put'), 0), 'postcondition', node)
        cond = st.heap.get((SIM, 'exit_condition'))
        for was in (True, False):
            s = State(dict(st.loc), dict(st.heap), st.pc, st.frame)
            put(s, 'set', SBool(z3.BoolVal(was)))
            ans = ex.call(cond, [Obj(SIM, npmodel.ExtClass('object'))], {}, s, node) if cond is not None else None
            ex.oblige(st, 'the simulation stops when the event is set', iff(ex.truth(ans, s), was) if ans is not None else lift(False),
                      'postcondition', node)
        put(st, 'ran', C.sadd(lift(ghost(st, 'ran')), lift(1)))
        # the event may have been set meanwhile, or not
        put(st, 'set', SBool(ex.fresh_z(z3.BoolSort(), 'set')))
        for k, err in enumerate(('CrowdDynamicsException', 'InvalidValue')):
            c = SBool(ex.fresh_z(z3.BoolSort(), 'error'))
            s2 = State(dict(st.loc), dict(st.heap), st.pc, st.frame)
            ex.assume(s2, c)
            ex.assume(st, lnot(c))
            ex.pending.append(Out('x', s2, (ex.repo.function('crowddynamics.exceptions:' + err), ())))
    return Native('run', run)


contract(MU + 'MultiAgentProcess.run', [('self', ObjT(
    MU + 'MultiAgentProcess', simulation=ObjT(None, run=AnyT(simulating), exit_condition=NoneV), exit=AnyT(lambda nm: Event()),
    queue=AnyT(lambda nm: Queue()), ghost_set=Bool, ghost_put=Int, ghost_ran=Int))], None, export=False,
    modifies=('self', 'self.simulation'), requires=lambda a: {'nothing done yet': land(eq(a.self.ghost_put, 0), eq(a.self.ghost_ran, 0))},
    ensures=lambda a: {'the simulation ran once': eq(a.post.self.ghost_ran, 1),
                       'the end marker is put on the queue once': eq(a.post.self.ghost_put, 1)})
prop('C25', MU + 'MultiAgentSimulation.update', B + 'SimulationBase.run', MU + 'MultiAgentProcess.run', drivers=['updates'], assume=[
    'anytree PostOrderIter(root) yields every node of the tree once, children first', 'simulation.run raises simulation errors only; '
    'nodes, exit condition, event, queue and logger are environment: their calls are recorded in ghost state'])
