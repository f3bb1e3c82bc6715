"""C26, C27, C29: logic nodes on a plain simulation object."""
import types
from collections import OrderedDict

import numpy as np
from shapely.geometry import LineString, Polygon, Point

from crowddynamics.core.evacuation import exit_detection
from crowddynamics.core.integrator import velocity_verlet_integrator
from crowddynamics.core.motion.adjusting import force_adjust_agents, torque_adjust_agents
from crowddynamics.core.steering.quickest_path import meshgrid
from crowddynamics.simulation import logic
from rt.crowd import *

RULE = ('logic nodes: crowds of 0 to 6 circular or three-circle agents with all state fields set, one to three updates of a '
        'node, the agents changed in between; non-trivial when there are agents; distinct by value.')
MODELS = ('circular', 'three_circle')
NODES = ('Reset', 'Integrator', 'Fluctuation', 'Adjusting', 'InsideDomain')


def crowd(rng, model, n, span=3.0):
    v2 = lambda s=2.0: [[rng.uniform(-s, s), rng.uniform(-s, s)] for _ in range(n)]
    f = lambda a, b: [rng.uniform(a, b) for _ in range(n)]
    d = dict(position=v2(span), velocity=v2(), force=v2(50), force_prev=v2(50), mass=f(40, 90), radius=f(0.2, 0.3),
             target_velocity=f(0.5, 2), tau_adj=f(0.3, 1), std_rand_force=f(0.05, 0.2), tau_rot=f(0.1, 0.4),
             inertia_rot=f(2, 5), std_rand_torque=f(0.05, 0.2), target=[rng.randint(-1, 3) for _ in range(n)],
             is_follower=[rng.random() < 0.6 for _ in range(n)], active=[rng.random() < 0.5 for _ in range(n)],
             familiar_exit=[rng.randint(-1, 2) for _ in range(n)], index_leader=[-1] * n,
             is_leader=[rng.random() < 0.3 for _ in range(n)], target_reached=[rng.random() < 0.3 for _ in range(n)])
    a = f(-3.1, 3.1)
    d['target_direction'] = [[math.cos(x), math.sin(x)] for x in a]
    if model == 'three_circle':
        d.update(orientation=f(-3.1, 3.1), angular_velocity=f(-2, 2), target_orientation=f(-3.1, 3.1), torque=f(-5, 5),
                 torque_prev=f(-5, 5), r_t=f(0.1, 0.2), r_s=f(0.05, 0.1), r_ts=f(0.1, 0.2), position_ls=v2(), position_rs=v2(),
                 target_angular_velocity=f(1, 5))
    else:
        d.pop('tau_rot')
        d.pop('inertia_rot')
        d.pop('std_rand_torque')
    return d


def poly(rng, span=3.0):
    x, y = rng.uniform(-span, span), rng.uniform(-span, span)
    r = rng.uniform(0.5, span)
    k = rng.randint(3, 6)
    return ['Polygon'] + [[x + r * math.cos(2 * math.pi * i / k + 0.3), y + r * math.sin(2 * math.pi * i / k + 0.3)]
                          for i in range(k)]


def case_of(rng, node):
    model = rng.choice(MODELS)
    n = rng.choice((0, 1, 2, 3, 4, 6)) if rng.random() < 0.97 else 40
    c = dict(node=node, model=model, agents=crowd(rng, model, n), n=n, seed=rng.randint(0, 9999), times=rng.randint(1, 3),
             moves=[[[rng.uniform(-3, 3), rng.uniform(-3, 3)] for _ in range(n)] for _ in range(3)])
    if node == 'Reset' and n and rng.random() < 0.5:
        odd = (math.inf, -math.inf, math.nan, 1e308, -1e308, 5e-324, -0.0)
        c['agents']['force'][rng.randrange(n)][rng.randrange(2)] = rng.choice(odd)
        if 'torque' in c['agents']:
            c['agents']['torque'][rng.randrange(n)] = rng.choice(odd)
    if node == 'Integrator':
        lo = rng.choice((0.0, 0.001, 0.01))
        c.update(dt_min=lo, dt_max=lo + rng.choice((0.0, 0.01, 0.1)) if lo else 0.01)
    if node in ('InsideDomain',):
        c['targets'] = [poly(rng)]
    if node == 'TargetReached':
        c['targets'] = [poly(rng) if rng.random() < 0.7 else ['LineString', [0.0, 0.0], [1.0, 1.0]]
                        for _ in range(rng.randint(0, 4))]
    return c


def cases(rng, tier):
    while True:
        yield case_of(rng, rng.choice(NODES))


def nontrivial(case):
    return case['n'] > 0


def geom(j):
    return None if j is None else {'Polygon': Polygon, 'LineString': LineString}[j[0]](j[1:])


def simulation(case, **field):
    a = agents_array(case['model'], case['n'], **case['agents'])
    sim = types.SimpleNamespace(agents=types.SimpleNamespace(array=a), field=types.SimpleNamespace(**field), data=OrderedDict(
        iterations=0, time_tot=0.0, dt=0.0))
    return sim, a


def inside(g, p):
    v = [tuple(x) for x in g[1:]]
    c = None
    for i in range(len(v)):
        a, b = v[i - 1], v[i]
        s = cross(a, b, p)
        if abs(s) < MARGIN:
            raise Close()
        if c is not None and (s > 0) != c:
            return False
        c = s > 0
    return True


def run(case):
    try:
        return globals()['run_' + case['node']](case)
    except Close:
        return []


def only(before, after, names):
    d = changed(before, after) - set(names)
    return [('nothing else changes', str(sorted(d)))] if d else []


def run_Reset(case):
    sim, a = simulation(case)
    node = logic.Reset(sim)
    b = a.copy()
    node.update()
    if sim.agents.array is not a:
        a = sim.agents.array
    bad = only(b, a, ('force', 'torque'))
    if np.any(a['force'] != 0):
        bad.append(('the force of every agent is zero', str(a['force'].tolist())))
    if case['model'] == 'three_circle' and np.any(a['torque'] != 0):
        bad.append(('the torque of every agent is zero', str(a['torque'].tolist())))
    return bad


def run_Integrator(case):
    sim, a = simulation(case)
    node = logic.Integrator(sim, dt_min=case['dt_min'], dt_max=case['dt_max'])
    total = 0.0
    for k in range(case['times']):
        ref = a.copy()
        dt = velocity_verlet_integrator(ref, case['dt_min'], case['dt_max'])
        node.update()
        total += dt
        for f in a.dtype.names:
            if not np.allclose(a[f], ref[f], rtol=1e-12, atol=1e-12, equal_nan=True):
                return [('all agents advance by one step', f)]
        if abs(sim.data['dt'] - dt) > 1e-15:
            return [('the used timestep is recorded', '%s, not %s' % (sim.data['dt'], dt))]
        if abs(sim.data['time_tot'] - total) > 1e-12:
            return [('the timestep is added to the total time', '%s, not %s' % (sim.data['time_tot'], total))]
        if sim.data['iterations'] != 0:
            return [('nothing else changes', 'iterations')]
    return []


def added(case, cls, expect):
    sim, a = simulation(case)
    zero, z = simulation(case)
    z['force'] = 0
    three = case['model'] == 'three_circle'
    if three:
        z['torque'] = 0
    bad = []
    for k in range(case['times']):
        b = a.copy()
        np.random.seed(case['seed'] + k)
        cls(sim).update()
        np.random.seed(case['seed'] + k)
        zb = z.copy()
        cls(zero).update()
        bad += only(b, a, ('force', 'torque') if three else ('force',))
        d = z['force'] - zb['force']
        if not np.allclose(a['force'], b['force'] + d, rtol=1e-9, atol=1e-9):
            bad.append(('the force is added to', '%s, not %s' % (a['force'].tolist(), (b['force'] + d).tolist())))
        w = expect(b)
        if w[0] is not None and not np.allclose(d, w[0], rtol=1e-9, atol=1e-9):
            bad.append(('the force of the motion model is added', '%s, not %s' % (d.tolist(), w[0].tolist())))
        if w[0] is None and case['n'] and np.any(np.all(d == 0, axis=1)):
            bad.append(('every agent gets a random force', str(d.tolist())))
        if three:
            d = z['torque'] - zb['torque']
            if not np.allclose(a['torque'], b['torque'] + d, rtol=1e-9, atol=1e-9):
                bad.append(('the torque is added to', '%s, not %s' % (a['torque'].tolist(), (b['torque'] + d).tolist())))
            if w[1] is not None and not np.allclose(d, w[1], rtol=1e-9, atol=1e-9):
                bad.append(('the torque of the motion model is added', '%s, not %s' % (d.tolist(), w[1].tolist())))
            if w[1] is None and case['n'] and np.any(d == 0):
                bad.append(('every agent gets a random torque', str(d.tolist())))
        if bad:
            return bad
    return bad


def run_Fluctuation(case):
    return added(case, logic.Fluctuation, lambda b: (None, None))


def run_Adjusting(case):
    def expect(b):
        w = b.copy()
        w['force'] = 0
        force_adjust_agents(w)
        if case['model'] != 'three_circle':
            return w['force'], None
        w['torque'] = 0
        torque_adjust_agents(w)
        return w['force'], w['torque']
    return added(case, logic.Adjusting, expect)


def run_InsideDomain(case):
    g = case['targets'][0]
    sim, a = simulation(case, domain=geom(g))
    node = logic.InsideDomain(sim)
    for k in range(case['times']):
        a['position'] = np.array(case['moves'][k]).reshape(case['n'], 2)
        b = a.copy()
        want = [inside(g, p) for p in case['moves'][k]]
        node.update()
        if a['active'].tolist() != want:
            return [('exactly the agents inside the domain are active', '%s, not %s' % (a['active'].tolist(), want))]
        if only(b, a, ('active',)):
            return only(b, a, ('active',))
    return []


def run_TargetReached(case):
    gs = case['targets']
    sim, a = simulation(case, targets=[geom(g) for g in gs])
    node = logic.TargetReached(sim)
    ever = [[False] * case['n'] for _ in gs]
    for k in range(case['times']):
        a['position'] = np.array(case['moves'][k]).reshape(case['n'], 2)
        b = a.copy()
        node.update()
        for t, g in enumerate(gs):
            if g[0] != 'Polygon':
                continue
            ever[t] = [e or inside(g, p) for e, p in zip(ever[t], case['moves'][k])]
            got = sim.data['target_%d' % t]
            if int(got) != sum(ever[t]):
                return [('the count of a target is the number of agents that have ever been inside', 'target %d: %s, not %d' % (
                    t, got, sum(ever[t])))]
        bad = only(b, a, ())
        if bad:
            return bad
    return []


def run_ExitDetection(case):
    gs = case['targets']
    sim, a = simulation(case, targets=[geom(g) for g in gs], obstacles=geom(case['walls']))
    node = logic.ExitDetection(sim, detection_range=case['range'])
    b = a.copy()
    node.update()
    bad = only(b, a, ('target', 'is_follower'))
    cs = []
    for g in gs:
        pts = g[1:] + ([g[1]] if g[0] == 'Polygon' else [])
        cs.append([sum(p[0] for p in pts) / len(pts), sum(p[1] for p in pts) / len(pts)])
    w = case['walls'][1:] if case['walls'] else []
    walls = [list(w[k]) + list(w[k + 1]) for k in range(len(w) - 1)]
    for i in range(case['n']):
        p = b['position'][i].tolist()
        vis = sorted((math.dist(p, c), t) for t, c in enumerate(cs) if lt(math.dist(p, c), case['range'])
                     and not hidden(p, c, walls))
        if len(vis) > 1:
            lt(vis[0][0], vis[1][0])
        if b['is_follower'][i] and vis:
            want = (vis[0][1], False)
        else:
            want = (int(b['target'][i]), bool(b['is_follower'][i]))
        got = (int(a['target'][i]), bool(a['is_follower'][i]))
        if got != want:
            bad.append(('followers that detect an exit take it and stop following, others keep their state',
                        'agent %d: %s, not %s' % (i, got, want)))
    return bad


def run_Navigation(case):
    step, bounds = case['step'], case['bounds']
    grid = meshgrid(step, *bounds)
    ny, nx = grid.shape
    calls = []

    def field(t):
        k = np.arange(ny * nx, dtype=float).reshape(ny, nx) + 0.25 + 1000 * t
        return np.cos(k), np.sin(k)

    def navigation_to_target(index, step_, radius, strength):
        calls.append((int(index), step_, radius, strength))
        return grid, np.zeros((ny, nx)), field(int(index))
    sim, a = simulation(case, targets=[Point(0, 0)] * case['ntargets'], navigation_to_target=navigation_to_target)
    node = logic.Navigation(sim, step=step, radius=case['radius'], strength=case['strength'])
    b = a.copy()
    node.update()
    bad = only(b, a, ('target_direction',))
    for t, s, r, st in calls:
        if (s, r, st) != (step, case['radius'], case['strength']) or not 0 <= t < case['ntargets']:
            bad.append(('the field of the target is asked with the parameters of the node', str((t, s, r, st))))
    for i in range(case['n']):
        t = int(b['target'][i])
        want = b['target_direction'][i]
        if 0 <= t < case['ntargets']:
            x, y = b['position'][i]
            fx, fy = (x - bounds[0]) / step, (y - bounds[1]) / step
            for q in (fx, fy):
                if abs(q - round(q)) < 1e-6 or -1 < q < 0:
                    raise Close()
            c, r = math.floor(fx), math.floor(fy)
            if 0 <= r < ny and 0 <= c < nx:
                u, v = field(t)
                want = np.array((u[r, c], v[r, c]))
        if not np.allclose(a['target_direction'][i], want, atol=1e-12):
            bad.append(('an agent gets the direction of its own target at its own position, others keep theirs',
                        'agent %d (target %d): %s, not %s' % (i, t, a['target_direction'][i], want)))
    return bad
