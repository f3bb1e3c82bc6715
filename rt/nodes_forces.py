"""C12, C13: AgentAgentInteractions.update and AgentObstacleInteractions.update."""
from crowddynamics.core import interactions as ia
from crowddynamics.simulation.agents import shoulders
from rt import nodes
from rt.nodes import *

RULE = ('interaction nodes: crowds of 0 to 6 agents up to 12 m apart, walls of none or a line of one to four segments; the '
        'change of the forces and torques against the sum over all pairs of agents, or over all agents and segments, of '
        'the interaction of one pair; non-trivial with two agents or with an agent and a wall; distinct by value.')
AGENT, WALL = 'AgentAgentInteractions', 'AgentObstacleInteractions'


def cases(rng, tier):
    while True:
        c = nodes.case_of(rng, rng.choice((AGENT, WALL)))
        span = rng.choice((0.5, 2.0, 6.0))
        n, a = c['n'], c['agents']
        a['position'] = [[rng.uniform(-span, span), rng.uniform(-span, span)] for _ in range(n)]
        a.update(k_soc=[1.5] * n, tau_0=[3.0] * n, mu=[1.2e5] * n, kappa=[4e4] * n, damping=[500.0] * n)
        c['walls'] = None if rng.random() < 0.2 else ['LineString'] + [
            [rng.uniform(-span, span), rng.uniform(-span, span)] for _ in range(rng.randint(2, 5))]
        line = lambda: ['LineString'] + [[rng.uniform(-span, span), rng.uniform(-span, span)] for _ in range(rng.randint(2, 5))]
        c['later'] = [rng.choice((None, c['walls'], line())) for _ in range(rng.choice((0, 0, 1, 2)))]
        if n > 1 and rng.random() < 0.3:
            # two agents just within sight of each other
            q = rng.choice((0, 1, 2, 3)) * math.pi / 2 if rng.random() < 0.7 else rng.uniform(0, 2 * math.pi)
            a['radius'][0] = a['radius'][1] = 0.3
            r, e, p = rng.uniform(2.9, 3.05) + 0.6, (math.cos(q), math.sin(q)), a['position'][0]
            a['position'][1] = [p[0] + r * e[0], p[1] + r * e[1]]
            # heading for each other
            a['velocity'][0], a['velocity'][1] = list(e), [-e[0], -e[1]]
            if c['model'] == 'circular' and rng.random() < 0.7:
                c['node'] = AGENT
        c['cell'] = None if rng.random() < 0.5 else rng.uniform(3.6, 8.0)
        yield c


def nontrivial(case):
    return case['n'] > 1 if case['node'] == AGENT else case['n'] > 0 and case['walls'] is not None


def run(case):
    sim, a = simulation(case, obstacles=geom(case['walls']))
    if case['node'] == AGENT:
        node = logic.AgentAgentInteractions(sim, **({} if case['cell'] is None else {'cell_size': case['cell']}))
    else:
        node = logic.AgentObstacleInteractions(sim)
    bad = one(case, sim, a, node, case['walls'])
    for k, w in enumerate(case['later']):
        # the crowd and the field change between two updates
        sim.field.obstacles = geom(w)
        a['position'] = np.array(case['moves'][k], dtype=float).reshape(a['position'].shape)
        a['velocity'] = a['velocity'][::-1].copy()
        bad = bad or one(case, sim, a, node, w)
    return bad


def one(case, sim, a, node, walls):
    three = case['model'] == 'three_circle'
    if three:
        shoulders(a)
    want, n = a.copy(), case['n']
    if case['node'] == AGENT:
        f = ia.interaction_agent_agent_three_circle if three else ia.interaction_agent_agent_circular
        for i in range(n):
            for j in range(i):
                f(i, j, want)
    else:
        w = walls[1:] if walls else []
        walls = walls_array([list(w[k]) + list(w[k + 1]) for k in range(len(w) - 1)])
        f = ia.interaction_agent_three_circle_obstacle if three else ia.interaction_agent_circular_obstacle
        for i in range(n):
            for k in range(len(walls)):
                f(i, k, want, walls)
    b = a.copy()
    node.update()
    bad = only(b, a, ('force', 'torque') if three else ('force',))
    for nm in ('force', 'torque') if three else ('force',):
        x, y = np.array(a[nm], dtype=float), np.array(want[nm], dtype=float)
        tol = 1e-6 * (1 + np.max(np.abs(y), initial=0.0))
        if not np.all(np.isfinite(y)):
            continue
        if not np.all(np.abs(x - y) <= tol):
            bad.append(('the node adds the sum of all interactions', '%s: %s, not %s' % (nm, x.tolist(), y.tolist())))
    return bad
