C = 'crowddynamics/'
SEEDS = {}


def seed(name, prop, edits, demo, needs, breaks):
    SEEDS[name] = dict(property=prop, edits=[(C + f, a, b) for f, a, b in edits], demo=demo, needs=needs, breaks=breaks)


seed('C02_minus_pi', 'C02',
     [('core/vector2D.py', "    if rad < 0 and rad_ == np.pi:", "    if rad < 0 and rad_ >= np.pi:")], '''
from crowddynamics.core.vector2D import wrap_to_pi
check(close(wrap_to_pi(-1.0), -1.0), 'wrap(-1)')
check(close(wrap_to_pi(-np.pi), -np.pi), 'wrap(-pi)')
check(close(wrap_to_pi(-6.0), -6.0 + 2 * np.pi), 'wrap(-6)')
''', 'a negative angle whose residue is above pi', 'negative angles are clipped to -pi instead of being wrapped')

seed('C05_on_the_wall', 'C05',
     [('core/distance.py', "        n_iw = np.sign(l_n) * n_w\n", "        n_iw = n_w if l_n >= 0.0 else -n_w\n")], '''
from crowddynamics.core.distance import distance_circle_line
h, n = distance_circle_line(np.array([1.0, 0.0]), 0.3, np.array([0.0, 0.0]), np.array([2.0, 0.0]))
check(close(h, -0.3) and close(n, (0, 0)), (h, n))
h, n = distance_circle_line(np.array([1.0, 0.1]), 0.3, np.array([0.0, 0.0]), np.array([2.0, 0.0]))
check(close(h, -0.2) and close(n, (0, 1)), (h, n))
''', 'a disc centre exactly on the wall line', 'the normal is not zero when the centre lies on the wall')

seed('C04_radius_index', 'C04',
     [('core/distance.py', "    r_moment0 = x0[i_min] + r0[i_min] * normal - x0[0]", "    r_moment0 = x0[i_min] + r0[j_min] * normal - x0[0]")], '''
from crowddynamics.core.distance import distance_three_circles
z = lambda *a: tuple(np.array(q, float) for q in a)
x0 = z((0, 0), (-0.3, 0), (0.3, 0)); x1 = z((1.0, 0.0), (1.0, 0.3), (1.0, -0.3))
h, n, m0, m1 = distance_three_circles(x0, (0.2, 0.1, 0.1), x1, (0.2, 0.1, 0.1))
check(close(h, 0.4) and close(n, (-1, 0)), (h, n))
check(close(m0, (0.3 - 0.1, 0)), m0)
check(close(m1, (0.2, 0)), m1)
''', 'the closest pair is a shoulder of one body and the torso of the other, with different radii', 'the lever arm of the first body uses the radius of the disc of the second body with the same index')

seed('C06_touching_end', 'C06',
     [('core/geom2D.py', "    return 0 <= t0 / d <= 1 and 0 <= t1 / d <= 1", "    s, t = t0 / d, t1 / d\n    return 0 <= s <= 1 and 0 <= t < 1")], '''
from crowddynamics.core.geom2D import line_intersect
a = lambda *v: np.array(v, float)
for sw in (False, True):
    p, q = (a(0, 1), a(0, 0)) if sw else (a(0, 0), a(0, 1))
    check(line_intersect(a(-1, 1), a(1, 1), p, q), 'end point touches')
    check(not line_intersect(a(-1, 2), a(1, 2), p, q), 'apart')
''', 'a wall whose second end point lies exactly on the sight line', 'the last end point of the wall does not block the sight')

seed('C07_first_term', 'C07',
     [('core/geom2D.py', "    for i in range(1, n-1):\n", "    for i in range(1, min(n-1, 8)):\n")], '''
from crowddynamics.core.geom2D import polygon_area
for n in (3, 5, 8, 9, 12, 20):
    t = 2 * np.pi * np.arange(n) / n
    v = np.stack((np.cos(t) + 3, np.sin(t) - 1), axis=1)
    check(close(polygon_area(v), 0.5 * n * np.sin(2 * np.pi / n)), n)
''', 'a polygon with more than nine vertices', 'vertices beyond the ninth are ignored in the area')

seed('C10_shared_tau', 'C10',
     [('core/motion/power_law.py', "    force_j[:] -= - agent[j]['mass'] * agent[j]['k_soc'] * grad * \\\n                  magnitude(tau, agent[j]['tau_0'])",
       "    force_j[:] -= - agent[j]['mass'] * agent[j]['k_soc'] * grad * \\\n                  magnitude(tau, agent[i]['tau_0'])")], '''
from crowddynamics.simulation.agents import agent_type_circular
from crowddynamics.core.motion.power_law import force_social_circular
def go(swap):
    a = np.zeros(2, dtype=agent_type_circular)
    a['position'] = [(0, 0), (2, 0.1)]; a['velocity'] = [(1, 0), (-1, 0)]
    a['radius'] = 0.25; a['mass'] = 80; a['k_soc'] = 1.5; a['tau_0'] = [3.0, 1.0]
    if swap:
        a = a[::-1].copy()
    return force_social_circular(a, 0, 1)
f, g = go(False); f2, g2 = go(True)
check(close(f, g2) and close(g, f2), (f, g, f2, g2))
''', 'two agents with different time horizons', 'the force on the second agent uses the time horizon of the first')

seed('C11_contact_kept', 'C11',
     [('core/motion/power_law.py', "            if tau_new > 0 and (np.isnan(tau) or tau_new < tau):\n                contact_i, contact_j = part_i, part_j\n",
       "            if tau_new > 0 and (np.isnan(tau) or tau_new < tau):\n                if np.isnan(tau) or part_i != contact_i:\n                    contact_j = part_j\n                contact_i = part_i\n")], '''
from crowddynamics.simulation.agents import agent_type_three_circle, shoulders
from crowddynamics.core.motion.power_law import force_social_three_circle
def go(swap, y, p, q):
    a = np.zeros(2, dtype=agent_type_three_circle)
    a['position'] = [(0, 0), (1.5, y)]; a['velocity'] = [(1, 0), (-1, 0)]
    a['radius'] = 0.25; a['r_t'] = 0.15; a['r_s'] = 0.1; a['r_ts'] = 0.17
    a['orientation'] = [p, q]; a['mass'] = 80; a['k_soc'] = 1.5; a['tau_0'] = 3
    shoulders(a)
    if swap:
        a = a[::-1].copy()
    return force_social_three_circle(a, 0, 1)
for y in (0.0, 0.1, 0.2, 0.3):
    for p in (0.1, 1.0, 2.0):
        for q in (0.2, 1.1, 1.9, 3.0):
            f, g = go(False, y, p, q); f2, g2 = go(True, y, p, q)
            check(close(f, g2) and close(g, f2), (f, g, f2, g2))
''', 'two disc pairs of the same disc of the first body, the later one colliding earlier', 'the force is taken for a pair that is not the one that collides first')

seed('C12_sight_edge', 'C12',
     [('core/interactions.py', "            force_i += force_contact(h, n, v, t, agents[i]['mu'],\n                                     agents[i]['kappa'], agents[i]['damping'])\n            force_j -= force_contact(h, n, v, t, agents[j]['mu'],\n                                     agents[j]['kappa'], agents[j]['damping'])\n\n        agents[i]['force'][:] += force_i\n        agents[j]['force'][:] += force_j\n\n        agents[i]['torque']",
       "            force_i += force_contact(h, n, v, t, agents[i]['mu'],\n                                     agents[i]['kappa'], agents[i]['damping'])\n            force_j -= force_contact(h, n, v, t, agents[j]['mu'],\n                                     agents[j]['kappa'], agents[i]['damping'])\n\n        agents[i]['force'][:] += force_i\n        agents[j]['force'][:] += force_j\n\n        agents[i]['torque']")], '''
from crowddynamics.simulation.agents import agent_type_three_circle, shoulders
from crowddynamics.core.interactions import interaction_agent_agent_three_circle
def go(swap):
    a = np.zeros(2, dtype=agent_type_three_circle)
    a['position'] = [(0, 0), (0.28, 0.02)]; a['velocity'] = [(-1, 0), (1, 0.5)]
    a['radius'] = 0.25; a['r_t'] = 0.15; a['r_s'] = 0.1; a['r_ts'] = 0.17
    a['mass'] = 80; a['k_soc'] = 1.5; a['tau_0'] = 3; a['mu'] = 1e5; a['kappa'] = 4e4; a['damping'] = [500, 100]
    shoulders(a)
    if swap:
        a = a[::-1].copy()
    interaction_agent_agent_three_circle(0, 1, a)
    f = a['force']
    return f[::-1] if swap else f
check(close(go(False), go(True), 1e-7), (go(False), go(True)))
''', 'two overlapping three-disc agents with different damping', 'the contact force on the second agent uses the damping of the first')

seed('C13_first_wall', 'C13',
     [('core/interactions.py', '''    """Agent obstacle"""
    for i in range(len(agents)):
        for w in range(len(obstacles)):
            interaction_agent_circular_obstacle(i, w, agents, obstacles)
''', '''    """Agent obstacle"""
    for i in range(len(agents)):
        for w in range(len(obstacles)):
            fx = agents[i]['force'][0]
            fy = agents[i]['force'][1]
            interaction_agent_circular_obstacle(i, w, agents, obstacles)
            # the agent has been pushed back by this wall already
            if w > 0 and (agents[i]['force'][0] != fx or agents[i]['force'][1] != fy):
                break
''')], '''
from crowddynamics.simulation.agents import agent_type_circular
from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.core.interactions import agent_circular_obstacle
a = np.zeros(1, dtype=agent_type_circular)
a['position'] = (0.1, 0.1); a['radius'] = 0.25; a['mu'] = 1.0; a['mass'] = 80
w = np.zeros(3, dtype=obstacle_type_linear)
w['p0'] = [(5, 5), (-1, 0), (0, -1)]; w['p1'] = [(6, 5), (1, 0), (0, 1)]
agent_circular_obstacle(a, w)
check(close(a['force'][0], (0.15, 0.15)), a['force'])
''', 'an agent in a corner, overlapping two walls of which the first is not the first of the list', 'the second wall is skipped')

seed('C14_all_fast', 'C14',
     [('core/integrator.py', "    elif dt < dt_min:\n        return dt_min\n    else:\n        return dt\n", "    elif dt < dt_min and len(agents) > 0 and c * dt_max > v_max * dt_min:\n        return dt_min\n    else:\n        return dt\n")], '''
from crowddynamics.simulation.agents import agent_type_circular
from crowddynamics.core.integrator import adaptive_timestep
for v in (0.5, 2.0, 10.0, 500.0):
    a = np.zeros(3, dtype=agent_type_circular); a['target_velocity'] = 1.0
    a['velocity'][1] = (v, 0)
    dt = adaptive_timestep(a, 0.01, 0.1)
    check(0.01 <= dt <= 0.1, (v, dt))
''', 'a very fast agent', 'the timestep falls below the minimum')

seed('C15_prev_torque', 'C15',
     [('core/integrator.py', "        agent['torque_prev'] = agent['torque']\n\n        agent['angular_velocity'] += (old_angular_acceleration +\n                                      new_angular_acceleration) / 2 * dt\n",
       "        agent['angular_velocity'] += (old_angular_acceleration +\n                                      new_angular_acceleration) / 2 * dt\n        if agent['torque'] != 0.0:\n            agent['torque_prev'] = agent['torque']\n")], '''
from crowddynamics.simulation.agents import agent_type_three_circle
from crowddynamics.core.integrator import rotational_verlet
a = np.zeros(2, dtype=agent_type_three_circle)
a['inertia_rot'] = 4.0; a['torque'] = [1.0, 0.0]; a['torque_prev'] = 2.0
rotational_verlet(a, 0.1)
check(close(a['torque_prev'], (1.0, 0.0)), a['torque_prev'])
''', 'an agent whose torque becomes exactly zero after it had one', 'the stale torque is used in the next step again')

seed('C17_three_only_first', 'C17',
     [('simulation/agents.py', '''    for agent in agents:
        h, _, _, _ = distance_three_circles(
            (agent['position'], agent['position_ls'], agent['position_rs']),
''', '''    reach = 2 * (r[0] + 2 * r[1])
    for agent in agents:
        # bodies that are far away cannot overlap
        if np.abs(agent['position'][0] - x[0][0]) > reach or \\
                np.abs(agent['position'][1] - x[0][1]) > reach:
            continue
        h, _, _, _ = distance_three_circles(
            (agent['position'], agent['position_ls'], agent['position_rs']),
''')], '''
from crowddynamics.simulation.agents import agent_type_three_circle, shoulders, overlapping_three_circles
a = np.zeros(1, dtype=agent_type_three_circle)
a['position'] = (1.0, 0.0); a['r_t'] = 0.6; a['r_s'] = 0.3; a['r_ts'] = 0.7; shoulders(a)
p = np.array([0.0, 0.0])
check(overlapping_three_circles(a, (p, p + (0, .1), p - (0, .1)), (0.1, 0.05, 0.05)) is not None, '')
h = np.hypot(1.0, 0) - 0.7
check(bool(overlapping_three_circles(a, (p, p + (0, .1), p - (0, .1)), (0.1, 0.05, 0.05))) == (h < 0), 'apart')
a['position'] = (0.65, 0.0); shoulders(a)
check(overlapping_three_circles(a, (p, p + (0, .1), p - (0, .1)), (0.1, 0.05, 0.05)), 'overlapping')
''', 'a small body next to a much bigger one', 'the overlap with a big neighbour is overlooked')

seed('C27_tie', 'C27',
     [('core/evacuation.py', "            d = length(center_door[c] - position[i])\n            if d < distance[i]:\n", "            d = length(center_door[c] - position[i])\n            if d < distance[i] or has_detected[i] and d == distance[i]:\n")], '''
from crowddynamics.core.evacuation import exit_detection
from crowddynamics.core.structures import obstacle_type_linear
o = np.zeros(0, dtype=obstacle_type_linear)
e, h = exit_detection(np.array([[1., 0.], [-1., 0.], [0., 3.]]), np.array([[0., 0.], [0., 2.5]]), o, 5.0)
check(list(e) == [0, 2] and list(h) == [True, True], (e, h))
''', 'an agent at the same distance from two visible exits', 'the higher-numbered exit is picked on ties')

seed('C28_layer', 'C28',
     [('core/evacuation.py', "        return coeff * ((d_door - (d_agent - d_layer)) // d_layer)\n", "        return coeff * ((d_door - d_agent) // d_layer + (1 if d_layer <= d_agent else 0))\n")], '''
from crowddynamics.core.evacuation import narrow_exit_capacity as f
check(close(f(1.25, 0.5, 0.25, 1.0), 4.0), f(1.25, 0.5, 0.25, 1.0))
check(close(f(2.0, 0.5, 1.0, 1.0), 2.0), f(2.0, 0.5, 1.0, 1.0))
check(close(f(0.25, 0.5, 0.25, 1.0), 0.0))
''', 'a layer wider than the agent', 'the capacity is one too small')

seed('C30_grid_shape', 'C30',
     [('core/steering/obstacle_handling.py', "        if not (0 <= i < n and 0 <= j < m):\n", "        if not (0 <= i < n and 0 <= j <= min(n, m) - 1):\n")], '''
from crowddynamics.core.steering.obstacle_handling import obstacle_handling_continuous as f
n, m = 2, 5
d = -np.full((n, m), 0.2); one = np.ones((n, m)); z = np.zeros((n, m))
out = f(d, (one, z), np.array([[0., 1.]] * 2), np.array([[1, 1], [1, 4]]), 0.5, 0.3)
check(close(out[0], out[1]), out)
''', 'a grid wider than high and an agent in one of the right columns', 'no avoidance there')

seed('C31_mean_leak', 'C31',
     [('core/steering/collective_motion.py', "            has_new_direction[i] = True\n\n        mean_position[:] = 0\n        mean_velocity[:] = 0\n", "            has_new_direction[i] = True\n            mean_position[:] = 0\n\n            if num_neigh > 1:\n                mean_velocity[:] = 0\n            else:\n                mean_velocity[:] -= velocity[neighbors[i, 0], :]\n")], '''
from crowddynamics.core.steering.collective_motion import herding_interaction
x = np.array([[0., 0.], [1., 0.], [0., 2.], [0., 3.], [1., 2.]])
v = np.array([[1., 0.], [1., 0.2], [1., 0.], [0.1, -3.], [1., 1.]])
h = np.array([True, False, True, False, False])
n1 = np.array([[3, 1], [-1, -1], [4, -1], [-1, -1], [-1, -1]])
n2 = np.array([[1, 3], [-1, -1], [4, -1], [-1, -1], [-1, -1]])
d1, h1 = herding_interaction(h, x, v, n1, 0.15, 0.45 * np.pi)
d2, h2 = herding_interaction(h, x, v, n2, 0.15, 0.45 * np.pi)
d3, h3 = herding_interaction(np.array([False, False, True, False, False]), x, v, n1, 0.15, 0.45 * np.pi)
check(close(d1[2], d3[2]) and close(d2[2], d3[2]), (d1[2], d2[2], d3[2]))
''', 'a herding agent with exactly one followed neighbour that is not the first of its table, and another herding agent after it', 'the heading of one agent leaks into the direction of the next one')
