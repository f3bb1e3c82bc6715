"""C25: updating, running and the simulation process."""
import gc

from crowddynamics.exceptions import CrowdDynamicsException, InvalidValue, OverlappingError, ValidationError
from crowddynamics.simulation.logic import LogicNode
from crowddynamics.simulation.multiagent import MultiAgentSimulation, MultiAgentProcess
from rt.tree import trees

RULE = ('simulations: every ordered logic tree of up to 5 nodes with the handle at every node, updated one to three times, run '
        'under exit conditions that hold after k calls (k from 0, also only once), and as a process that is stopped or whose '
        'nodes raise a simulation error; non-trivial when at least one node is evaluated; distinct by value.')
ERR = {'cd': CrowdDynamicsException, 'iv': InvalidValue, 'ov': OverlappingError, 've': ValidationError}


def cases(rng, tier):
    for n in range(1, 6):
        for ps in trees(n):
            for h in range(n):
                yield dict(tree=ps, handle=h, kind='update', times=2)
    for n in (1, 3, 4):
        for ps in trees(n):
            yield dict(tree=ps, handle=0, kind='process', stop_at=0)
            yield dict(tree=ps, handle=0, kind='process', err='cd', node=0, at=1, stop_at=0)
            for k in range(0, 4):
                yield dict(tree=ps, handle=0, kind='run', exits=[False] * k + [True])
                yield dict(tree=ps, handle=n - 1, kind='run', exits=[False] * k + [True, False, False, True])
                yield dict(tree=ps, handle=0, kind='process', stop_at=k + 1)
                for e in ERR:
                    yield dict(tree=ps, handle=0, kind='process', err=e, node=k % n, at=k // 2 + 1, stop_at=9)
    while True:
        n = rng.randint(1, 9) if rng.random() < 0.95 else rng.randint(20, 40)
        ps = [-1] + [rng.randrange(i) for i in range(1, n)]
        h = rng.randrange(n)
        k = rng.choice(('update', 'run', 'process', 'process'))
        if k == 'update':
            yield dict(tree=ps, handle=h, kind=k, times=rng.randint(1, 4))
        elif k == 'run':
            yield dict(tree=ps, handle=h, kind=k, exits=[rng.random() < 0.2 for _ in range(8)] + [True])
        else:
            yield dict(tree=ps, handle=h, kind=k, err=rng.choice([None] + sorted(ERR)), node=rng.randrange(n),
                       at=rng.randint(1, 4), stop_at=rng.randint(0, 6))


def nontrivial(case):
    return case['kind'] != 'run' or not case['exits'][0]


COUNT = [0]


class Node(LogicNode):
    def __init__(self, sim, k, log, hook):
        super().__init__(sim)
        self.k, self.log, self.hook = k, log, hook

    def update(self):
        self.log.append(self.k)
        self.hook(self)


class Queue(list):
    def put(self, x, *a, **k):
        self.append(x)


def post(ps, i):
    return [x for j in range(len(ps)) if ps[j] == i for x in post(ps, j)] + [i]


def run(case):
    ps = case['tree']
    log = []
    hooks = {}
    sim = MultiAgentSimulation()
    ns = [Node(sim, k, log, lambda n: hooks['h'](n) if 'h' in hooks else None) for k in range(len(ps))]
    for k, p in enumerate(ps):
        if p >= 0:
            ns[k].parent = ns[p]
    sim.logic = ns[case['handle']]
    order = post(ps, 0)
    if case['kind'] == 'update':
        seen = []
        hooks['h'] = lambda n: seen.append(sim.data['iterations'])
        for t in range(case['times']):
            del log[:], seen[:]
            sim.update()
            if log != order:
                return [('every node is evaluated once in post-order', '%s, not %s' % (log, order))]
            if set(seen) != {t}:
                return [('the iteration count grows after the nodes are evaluated', str(seen))]
            if sim.data['iterations'] != t + 1:
                return [('the iteration count grows by one', str(sim.data['iterations']))]
        return []
    if case['kind'] == 'run':
        ex = case['exits']
        calls = []

        def cond(s):
            if s is not sim:
                raise AssertionError('exit condition is asked about the simulation')
            calls.append(len(log))
            if len(calls) > len(ex):
                raise KeyboardInterrupt('asked again after it held')
            return ex[len(calls) - 1]
        sim.exit_condition = cond
        try:
            sim.run()
        except KeyboardInterrupt as e:
            return [('a run stops exactly when the exit condition first holds', str(e))]
        k = ex.index(True)
        if log != order * k or calls != [len(order) * j for j in range(k + 1)]:
            return [('the exit condition is evaluated before each update and the run stops when it first holds',
                     '%d updates, asked at %s; first true at call %d' % (len(log) // len(order), calls, k))]
        if sim.data['iterations'] != k:
            return [('one iteration per update', str(sim.data['iterations']))]
        return []
    COUNT[0] += 1
    if COUNT[0] % 100 == 0:
        gc.collect()           # semaphores of finished processes
    q = Queue()
    p = MultiAgentProcess(sim, q)
    p.logger.disabled = True

    def hook(n):
        it = log.count(n.k)
        q.put(('data', n.k, it))
        if case.get('err') and n.k == case['node'] and it == case['at']:
            raise ERR[case['err']]('stop')
        if n.k == order[0] and it == case['stop_at']:
            p.stop()
        if it > 50:
            raise KeyboardInterrupt
    hooks['h'] = hook
    if case['stop_at'] == 0:
        p.stop()
    try:
        p.run()
    except KeyboardInterrupt:
        return [('a stopped process ends', '50 iterations')]
    ends = [i for i, x in enumerate(q) if x is MultiAgentProcess.EndProcess]
    if ends != [len(q) - 1]:
        return [('the end marker is put last and once', 'positions %s of %d' % (ends, len(q)))]
    # what was evaluated: whole updates until the stop or the error
    full = order * 60
    w = log == full[:len(log)]
    if not w:
        return [('nodes are evaluated in order', str(log))]
    err_pos = order.index(case['node']) + (case['at'] - 1) * len(order) + 1 if case.get('err') else 10 ** 6
    stop_pos = case['stop_at'] * len(order)
    if len(log) != min(err_pos, stop_pos):
        return [('the process stops at the first stop or error', '%d evaluations, not %d' % (len(log), min(err_pos, stop_pos)))]
    return []
