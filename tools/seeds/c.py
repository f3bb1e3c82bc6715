C = 'crowddynamics/'
SEEDS = {}


def seed(name, prop, edits, demo, needs, breaks):
    SEEDS[name] = dict(property=prop, edits=[(C + f, a, b) for f, a, b in edits], demo=demo, needs=needs, breaks=breaks)


SIM = '''
import types
from collections import OrderedDict
from shapely.geometry import LineString, Polygon
from crowddynamics.simulation import logic
from crowddynamics.simulation.agents import agent_type_circular, agent_type_three_circle
def sim(agents, **field):
    return types.SimpleNamespace(agents=types.SimpleNamespace(array=agents), field=types.SimpleNamespace(**field),
                                 data=OrderedDict(iterations=0, time_tot=0., dt=0.))
def crowd(pos, t=agent_type_circular, **kw):
    a = np.zeros(len(pos), dtype=t); a['position'] = pos
    for k, v in dict(dict(radius=.25, mass=80., k_soc=1.5, tau_0=3., mu=1.2e5, kappa=4e4, damping=500.), **kw).items(): a[k] = v
    return a
'''

seed('C01_short_vectors', 'C01',
     [('core/vector2D.py', "    return v / l if l else v\n", "    return v / l if l > 1e-6 else v\n")], '''
from crowddynamics.core.vector2D import normalize
check(close(normalize(np.array([3e-7, 4e-7])), (.6, .8)))
''', 'a vector shorter than a micrometre', 'the vector is not normalised')

seed('C03_inside', 'C03',
     [('core/distance.py', "    h = d - r_tot\n    if d == 0.0:\n        n = np.zeros(2)\n    else:\n        n = x / d\n\n    return h, n\n",
       "    h = d - r_tot\n    if d == 0.0:\n        n = np.zeros(2)\n    else:\n        n = x / d\n    if d + r0 < r1:\n        h = -2 * r0\n\n    return h, n\n")], '''
from crowddynamics.core.distance import distance_circles as f
h, n = f(np.array([.1, 0.]), .2, np.array([0., 0.]), .5)
check(close(h, .1 - .7) and close(n, (1, 0)), h)
''', 'a small disc that lies inside the other one', 'the distance is not the distance of the centres minus the radii')

seed('C08_wrap', 'C08',
     [('core/motion/adjusting.py', "           (wrap_to_pi(phi_0 - phi) / np.pi * omega_0 - omega)\n",
       "           ((wrap_to_pi(phi_0) - wrap_to_pi(phi)) / np.pi * omega_0 - omega)\n")], '''
from crowddynamics.core.motion.adjusting import torque_adjust as f
check(close(f(4., .2, 3., -3., 12., .5), 4 / .2 * ((6 - 2 * np.pi) / np.pi * 12 - .5)))
''', 'orientation and target on different sides of the direction of the negative x axis', 'the agent turns the long way round')

seed('C09_damping', 'C09',
     [('core/motion/contact.py', "    return - h * (mu * n - kappa * dot(v, t) * t) + damping * dot(v, n) * n\n",
       "    return - h * (mu * n - kappa * dot(v, t) * t) + damping * min(dot(v, n), 1.0) * n\n")], '''
from crowddynamics.core.motion.contact import force_contact as f
n = np.array([1., 0.]); t = np.array([0., -1.])
check(close(f(-.1, n, np.array([2., 0.]), t, 10., 1., 5.), (1 + 10, 0)))
''', 'discs that part faster than one metre per second', 'the damping force is cut off')

seed('C16_stale_shoulders', 'C16',
     [('core/integrator.py', "        agent['orientation'] += agent['angular_velocity'] * dt + \\\n                                new_angular_acceleration / 2 * dt ** 2\n\n        agent['orientation'] = wrap_to_pi(agent['orientation'])\n\n\ndef velocity_verlet_integrator_init",
       "        agent['orientation'] += agent['angular_velocity'] * dt + \\\n                                new_angular_acceleration / 2 * dt ** 2\n\n        agent['orientation'] = wrap_to_pi(agent['orientation'])\n\n\ndef _turned(agents):\n    return np.any(agents['angular_velocity'] != 0.0)\n\n\ndef velocity_verlet_integrator_init"),
      ('core/integrator.py', "        rotational_verlet(agents, dt)\n        shoulders(agents)\n    return dt\n", "        rotational_verlet(agents, dt)\n        if _turned(agents):\n            shoulders(agents)\n    return dt\n")], SIM + '''
from crowddynamics.core.integrator import velocity_verlet_integrator as f
from crowddynamics.simulation.agents import shoulders
a = crowd([[0., 0.]], agent_type_three_circle, inertia_rot=4., r_t=.16, r_s=.1, r_ts=.15, velocity=(1., 0.))
shoulders(a); f(a, .01, .01)
check(close(a['position_ls'][0] + a['position_rs'][0], 2 * a['position'][0]), a['position_ls'])
''', 'a step in which no agent turns', 'the shoulders stay behind the moving body')

seed('C18_second_group', 'C18',
     [('simulation/agents.py', "            self._neighbours[new_agent.position] = self.index\n", "            self._neighbours[new_agent.position] = index\n")], '''
from crowddynamics.simulation.agents import Agents, AgentGroup, Circular
a = Agents(agent_type=Circular)
att = lambda: dict(radius=.25, mass=80.)
def group(pts):
    it = iter([np.array(p) for p in pts])
    a.add_non_overlapping_group(AgentGroup(agent_type=Circular, size=2, attributes=att), lambda: next(it))
group([(0., 0.), (3., 0.)])
group([(0., 3.), (0., 3.1), (3., 3.)])
x = a.array['position']
check(a.index == 4 and close(x, [(0, 0), (3, 0), (0, 3), (3, 3)]), x)
''', 'a second group, two positions of which are close', 'agents of the second group overlap')

seed('C19_negative', 'C19',
     [('core/block_list.py', "            return tuple(elem // cell_size for elem in value)\n", "            return tuple(elem // cell_size if elem > -cell_size else -1.0 - (-elem) // cell_size\n                         for elem in value)\n")], '''
from crowddynamics.core.block_list import MutableBlockList
b = MutableBlockList(cell_size=1.0)
b[(-2.0, .5)] = 'a'
check(b[(-1.5, .5)] == ['a'] and b[(-2.5, .5)] == [])
''', 'a point on a cell border on the negative side', 'the point is counted to the other cell')

seed('C23_nothing', 'C23',
     [('io.py', "        obj = {name: geometry_mapping(geom) for name, geom in\n               geometries.items()}\n", "        obj = {name: geometry_mapping(geom) for name, geom in\n               geometries.items() if geom or geom is None}\n")], '''
from crowddynamics.io import save_geometry_json, load_geometry_json
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'g.json')
    save_geometry_json(f, {'targets': [], 'domain': None})
    check(load_geometry_json(f) == {'targets': [], 'domain': None})
''', 'an empty list of geometries', 'the name is missing in the file')

seed('C34_small_counts', 'C34',
     [('core/quantities.py', "    count = np.zeros(shape, dtype=np.int64)\n    for i, j in zip(x, y):\n", "    count = np.zeros(shape, dtype=np.uint8)\n    for i, j in zip(x, y):\n")], '''
from crowddynamics.core.quantities import density_classical as f
check(f(np.zeros((300, 2)), 1.0).sum() == 300)
''', 'more than 255 agents in one cell', 'the count overflows')

seed('C36_interrupt', 'C36',
     [('utils.py', "    try:\n        os.chdir(directory)\n        yield\n    finally:\n        os.chdir(curdir)\n", "    os.chdir(directory)\n    try:\n        yield\n    except Exception:\n        os.chdir(curdir)\n        raise\n    else:\n        os.chdir(curdir)\n")], '''
from crowddynamics.utils import remember_cwd
d0 = os.getcwd()
with tempfile.TemporaryDirectory() as d:
    try:
        with remember_cwd(d):
            raise KeyboardInterrupt
    except KeyboardInterrupt:
        pass
    d1 = os.getcwd(); os.chdir(d0)
check(d1 == d0, d1)
''', 'an interrupt from the keyboard inside the context', 'the working directory is not restored')

seed('C41_shared', 'C41',
     [('simulation/logic.py', "        self.names = []\n        self.paths = []\n", "        reached = np.zeros(size, dtype=np.bool_)\n        self.names = []\n        self.paths = []\n"),
      ('simulation/logic.py', "                self.reached_by.append(np.zeros(size, dtype=np.bool_))\n", "                self.reached_by.append(reached)\n")], SIM + '''
sq = lambda x: Polygon([(x, 0.), (x + 1., 0.), (x + 1., 1.), (x, 1.)])
a = crowd([[.5, .5], [5.5, .5], [9., 9.]])
s = sim(a, targets=[sq(0.), sq(5.)])
n = logic.TargetReached(s); n.update()
check(s.data['target_0'] == 1 and s.data['target_1'] == 1, dict(s.data))
''', 'two targets with agents in each of them', 'the agents of the first target are also counted for the second')

seed('C12_cell_size', 'C12',
     [('simulation/logic.py', "        return self.sight_soc + 2 * self.max_agent_radius\n", "        return self.sight_soc + self.max_agent_radius\n")], SIM + '''
a = crowd([[3.29, 0.], [6.7, 0.], [0., 3.], [0., 0.]], velocity=[(1., 0.), (-1., 0.), (0., 0.), (0., 0.)])
b = a.copy()
from crowddynamics.core.interactions import interaction_agent_agent_circular as f
for i in range(4):
    for j in range(i): f(i, j, b)
logic.AgentAgentInteractions(sim(a)).update()
check(close(a['force'], b['force']), (a['force'], b['force']))
''', 'two agents just within sight of each other, two cells apart', 'they do not interact')

seed('C13_cached_walls', 'C13',
     [('simulation/logic.py', "            obstacles = geom_to_linear_obstacles(\n                self.simulation.field.obstacles)\n        agent_obstacle(agents, obstacles)\n",
       "            if getattr(self, '_walls', None) is None:\n                self._walls = geom_to_linear_obstacles(\n                    self.simulation.field.obstacles)\n            obstacles = self._walls\n        agent_obstacle(agents, obstacles)\n")], SIM + '''
a = crowd([[0., .1], [5., .1]])
s = sim(a, obstacles=LineString([(-1., 0.), (1., 0.)]))
n = logic.AgentObstacleInteractions(s); n.update()
check(a['force'][0, 1] > 0 and a['force'][1, 1] == 0)
s.field.obstacles = LineString([(4., 0.), (6., 0.)])
a['force'] = 0; n.update()
check(a['force'][1, 1] > 0 and a['force'][0, 1] == 0, a['force'])
''', 'obstacles that change during the simulation', 'the walls of the first step are used for ever')

seed('C27_follower_mask', 'C27',
     [('simulation/logic.py', "        agents['target'][mask] = targets[mask]\n        agents['is_follower'][mask] = False\n", "        agents['is_follower'][mask] = False\n        agents['target'][mask] = targets[:np.count_nonzero(mask)]\n")], SIM + '''
a = crowd([[0., 0.], [9., 0.], [10., 1.]], is_follower=[False, True, True])
logic.ExitDetection(sim(a, targets=[LineString([(0., 1.), (0., 2.)]), LineString([(10., 2.), (10., 3.)])], obstacles=None)).update()
check(list(a['target']) == [0, 1, 1], a['target'])
''', 'an agent that does not follow before one that does, with different nearest exits', 'the exit of another agent is taken')

seed('C29_same_grid', 'C29',
     [('simulation/logic.py', "            indices = np.fliplr(mgrid.indicer(agents[has_target]['position']))\n", "            indices = mgrid.indicer(agents[has_target]['position'])\n            if mgrid.values[0].shape[0] != mgrid.values[0].shape[1]:\n                indices = np.fliplr(indices)\n")], SIM + '''
from crowddynamics.core.steering import quickest_path as q
P = Polygon([(0., 0.), (4., 0.), (4., 4.), (0., 4.)])
g = q.meshgrid(1.0, *P.bounds)
n = g.values[0].shape
u = np.arange(n[0] * n[1], dtype=float).reshape(n); v = -u
a = crowd([[.5, 2.5]], target=0)
logic.Navigation(sim(a, targets=[P], navigation_to_target=lambda *k: (g, u, (u, v)))).update()
check(close(a['target_direction'][0], (u[2, 0], v[2, 0])), a['target_direction'])
''', 'a square domain', 'row and column of the direction map are swapped')

seed('C37_herd_order', 'C37',
     [('core/steering/collective_motion.py', "    agents['target'][has_direction] = NO_TARGET\n\n    direction_leader, has_strategy = leader_follower_interaction_brute(\n        is_follower, is_leader, position, velocity, weight_position_leader,\n        phi, agents['target'], agents['index_leader'], obstacles, sight_leader)\n",
       "    direction_leader, has_strategy = leader_follower_interaction_brute(\n        is_follower, is_leader, position, velocity, weight_position_leader,\n        phi, agents['target'], agents['index_leader'], obstacles, sight_leader)\n    agents['target'][has_direction] = NO_TARGET\n")], SIM + '''
from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.core.steering.collective_motion import leader_follower_with_herding_interaction as f
a = crowd([[0., 0.], [1., 0.], [40., 0.]], velocity=[(1., 0.), (1., 0.), (1., 0.)], is_follower=[True, True, False],
          is_leader=[False, False, True], target=[0, 0, 3], familiar_exit=1, index_leader=[2, 2, -1])
f(a, np.zeros(0, dtype=obstacle_type_linear), 3.0, 2)
check(a['target'][0] == 3, a['target'])
''', 'a follower of a leader out of sight that also sees moving neighbours', 'the target of the remembered leader is lost')
