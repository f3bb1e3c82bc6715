C = 'crowddynamics/'
SEEDS = {}


def seed(name, prop, edits, demo, needs, breaks):
    SEEDS[name] = dict(property=prop, edits=[(C + f, a, b) for f, a, b in edits], demo=demo, needs=needs, breaks=breaks)


CIRC = '''
from crowddynamics.simulation.agents import Agents, AgentGroup, Circular, ThreeCircle
'''

seed('C18_index_after_group', 'C18',
     [('simulation/agents.py', "            neighbours = self._neighbours.nearest(new_agent.position, radius=1)\n            if new_agent.overlapping(self.array[neighbours]):\n",
       "            neighbours = self._neighbours.nearest(new_agent.position, radius=1)\n            if new_agent.overlapping(self.array[:self.index][neighbours[:8]]):\n")],
     CIRC + '''
pts = [np.array([0.55 * (k % 3), 0.55 * (k // 3)]) for k in range(9)] + [np.array([1.1, 1.1 + 0.1])] + [np.array([5. + k, 5.]) for k in range(5)]
it = iter(pts)
a = Agents(agent_type=Circular, cell_size=0.6)
g = AgentGroup(agent_type=Circular, size=10, attributes=lambda: dict(radius=0.27, mass=80.))
a.add_non_overlapping_group(g, lambda: next(it))
x = a.array['position']
d = np.hypot(*(x[:, None] - x[None]).transpose(2, 0, 1)) + 10 * np.eye(10)
check(d.min() >= 0.54, d.min())
''', 'a dense neighbourhood with more than eight agents in the nine cells', 'only some of the neighbours are tested for overlap')

seed('C19_radius2', 'C19',
     [('core/block_list.py', "            yield tuple(map(sum, zip(index, i)))\n", "            if sum(map(abs, i)) <= radius + 1:\n                yield tuple(map(sum, zip(index, i)))\n")], '''
from crowddynamics.core.block_list import MutableBlockList
for dim in (1, 2):
    for r in (1, 2):
        b = MutableBlockList(cell_size=1.0)
        b[(2.5,) * dim] = 'a'
        check(b.nearest((0.5,) * dim, radius=r) == (['a'] if r == 2 else []), (dim, r))
''', 'a radius of at least two', 'the corner cells of larger neighbourhoods are not looked up')

seed('C20_lost_after_dump', 'C20',
     [('io.py', "            np.save(filepath, np.vstack(buffer))\n            buffer.clear()\n            index += 1\n", "            np.save(filepath, np.vstack(buffer))\n            buffer[:] = buffer[1:] if len(buffer) > 64 else []\n            index += 1\n")], '''
from crowddynamics.io import save_npy
with tempfile.TemporaryDirectory() as d:
    s = save_npy(d, 'a'); s.send(None)
    k = 0
    for n in (70, 3):
        for q in range(n):
            s.send(np.full((2, 2), float(k))); k += 1
            s.send(q == n - 1)
    got = np.concatenate([np.load(os.path.join(d, 'a_%d.npy' % i)) for i in range(2)])
    check(close(got[::2, 0], np.arange(73)), got.shape)
''', 'more than 64 arrays between two dumps', 'arrays are written again with the next dump')

seed('C21_lexicographic', 'C21',
     [('io.py', "    for index, filepath in sorted(values, key=lambda x: x[0]):\n", "    for index, filepath in sorted(values, key=lambda x: (len(x[1]), x[1])):\n")], '''
from crowddynamics.io import load_npy
with tempfile.TemporaryDirectory() as d:
    os.makedirs(os.path.join(d, 'part'))
    for i, sub in ((0, 'part'), (1, ''), (2, ''), (10, '')):
        np.save(os.path.join(d, sub, 'a_%d.npy' % i), np.full((1, 1), float(i)))
    check([float(x[0, 0]) for x in load_npy(d, 'a')] == [0, 1, 2, 10])
''', 'files of one recording in different folders below the directory', 'files are read in the order of their path lengths instead of their numbers')

seed('C22_header_again', 'C22',
     [('io.py', "                # clear stringIO\n                buffer.truncate(0)\n                buffer.seek(0)\n", "                # clear stringIO\n                buffer.seek(0)\n                buffer.truncate(len(buffer.getvalue()) % 4096 and 0)\n                buffer.seek(0, 2 if buffer.getvalue() else 0)\n")],
     '''
from crowddynamics.io import save_csv
import csv
with tempfile.TemporaryDirectory() as d:
    s = save_csv(d, 'a'); s.send(None)
    rows = []
    for q in range(5):
        rows.append(q); s.send({'x': q}); s.send(q % 2 == 0)
    got = list(csv.reader(open(os.path.join(d, 'a.csv'), newline='')))
    check(got == [['x']] + [[str(r)] for r in rows], got)
''', 'x', 'y')
del SEEDS['C22_header_again']

seed('C22_short_records', 'C22',
     [('io.py', "        while True:\n            data = yield  # dict\n            writer.writerow(data.values())\n            dump = yield  # bool\n", "        while True:\n            data = yield  # dict\n            if any(value is not None and value != '' for value in data.values()):\n                writer.writerow(data.values())\n            dump = yield  # bool\n")], '''
from crowddynamics.io import save_csv
import csv
with tempfile.TemporaryDirectory() as d:
    s = save_csv(d, 'a'); s.send(None)
    recs = [{'x': 1, 'y': 2}, {'x': None, 'y': ''}, {'x': 0, 'y': 3}]
    for r in recs:
        s.send(r); s.send(True)
    got = list(csv.reader(open(os.path.join(d, 'a.csv'), newline='')))
    check(len(got) == 4, got)
''', 'a record whose values are all empty', 'the row is dropped')

seed('C24_after_order', 'C24',
     [('simulation/base.py', "        for child in self.children:\n            child.parent = node\n        node.parent = self\n", "        children = set(self.children)\n        for child in sorted(children, key=lambda c: c.name):\n            child.parent = node\n        node.parent = self\n")], '''
from crowddynamics.simulation.base import LogicNodeBase as N
def mk(n):
    x = N(); x.name = n; return x
r, a, b, c = (mk(n) for n in ('r', 'b', 'a', 'c'))
r << (a, b, c)
n = mk('n')
r.inject_after(n)
check([x.name for x in n.children] == ['b', 'a', 'c'] and r.children == (n,), n.children)
''', 'children whose names are not in alphabetical order', 'the children change their order')

seed('C24_lookup_subtree', 'C24',
     [('simulation/base.py', "        for node in PreOrderIter(self.root):\n            if node.name == item:\n                return node\n", "        for node in PreOrderIter(self):\n            if node.name == item:\n                return node\n        for node in PreOrderIter(self.root):\n            if node.name == item:\n                return node\n")], '''
from crowddynamics.simulation.base import LogicNodeBase as N
def mk(n):
    x = N(); x.name = n; return x
r, a, b, c = mk('r'), mk('x'), mk('m'), mk('x')
r << (a, b << c)
check(b['x'] is a, 'first in pre-order')
''', 'two nodes of the same name and a lookup from a node whose subtree holds the second one', 'the lookup depends on the node it starts from')

seed('C25_handle_subtree', 'C25',
     [('simulation/multiagent.py', "        for node in PostOrderIter(self.logic.root):\n            node.update()\n", "        for node in PostOrderIter(self.logic if self.logic.children else self.logic.root):\n            node.update()\n")], '''
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from crowddynamics.simulation.logic import LogicNode
log = []
class X(LogicNode):
    def update(self):
        log.append(self.name)
s = MultiAgentSimulation()
a, b, c = X(s, name='a'), X(s, name='b'), X(s, name='c')
a << (b << c)
for h in (a, b, c):
    log.clear(); s.logic = h; s.update()
    check(log == ['c', 'b', 'a'], log)
''', 'a logic handle that is an inner node of the tree', 'only the subtree of the handle is evaluated')

seed('C25_error_marker', 'C25',
     [('simulation/multiagent.py', "                'Simulation stopped to error: {}'.format(error))\n            self.stop()\n        self.queue.put(self.EndProcess)\n", "                'Simulation stopped to error: {}'.format(error))\n            self.stop()\n            self.queue.put(self.EndProcess)\n        else:\n            if self.exit.is_set() and self.simulation.data.get('iterations', 0):\n                self.queue.put(self.EndProcess)\n")], '''
import queue
from crowddynamics.simulation.multiagent import MultiAgentSimulation, MultiAgentProcess
from crowddynamics.simulation.logic import LogicNode
for stop in (False, True):
    class X(LogicNode):
        def update(self):
            p.stop()
    s = MultiAgentSimulation(); s.logic = X(s)
    q = queue.Queue(); p = MultiAgentProcess(s, q)
    if stop:
        p.stop()
    p.run()
    check(q.qsize() == 1 and q.get() is p.EndProcess, stop)
del p, s
import gc; gc.collect()
''', 'a process that is stopped before its first iteration', 'the end marker is missing')

seed('C26_shared_reset', 'C26',
     [('simulation/logic.py', "        agents['force'] = 0\n        if is_model(agents, 'three_circle'):\n", "        agents['force'] -= agents['force']\n        if is_model(agents, 'three_circle'):\n")], '''
from crowddynamics.simulation.agents import Agents, Circular
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from crowddynamics.simulation.logic import Reset
s = MultiAgentSimulation(); s.agents = Agents(agent_type=Circular)
s.agents.array = np.zeros(3, dtype=s.agents.array.dtype)
s.agents.array['force'][1] = (1, 2); s.agents.array['force'][2] = (np.inf, np.nan)
Reset(s).update()
check(np.all(s.agents.array['force'] == 0), s.agents.array['force'])
''', 'a force that is not finite', 'the force is not reset to zero')

seed('C26_time_total', 'C26',
     [('simulation/logic.py', "        self.simulation.data['dt'] = dt\n        self.simulation.data['time_tot'] += dt\n", "        self.simulation.data['time_tot'] += dt if self.simulation.data['dt'] <= dt else self.simulation.data['dt']\n        self.simulation.data['dt'] = dt\n")], '''
from crowddynamics.simulation.agents import Agents, Circular
from crowddynamics.simulation.multiagent import MultiAgentSimulation
from crowddynamics.simulation.logic import Integrator
s = MultiAgentSimulation(); s.agents = Agents(agent_type=Circular)
a = s.agents.array = np.zeros(1, dtype=s.agents.array.dtype)
a['mass'] = 1; a['target_velocity'] = 1
n = Integrator(s, dt_min=0.001, dt_max=0.1)
t = 0.0
for v in (0.0, 2.0, 5.0, 1.5):
    a['velocity'] = (v, 0)
    n.update(); t += s.data['dt']
    check(close(s.data['time_tot'], t), (v, t, s.data['time_tot']))
''', 'a timestep that is smaller than the previous one', 'the total time adds the previous timestep')

seed('C29_negative_index', 'C29',
     [('core/steering/navigation.py', "        if not (l <= i < u):\n            return False\n", "        if i >= u or i + u < l:\n            return False\n")], '''
from crowddynamics.core.steering.navigation import getdefault
x = np.arange(6.).reshape(2, 3); y = -x
out = getdefault(np.array([[0, 1], [-1, 1], [1, -2], [2, 0]]), (x, y), np.full((4, 2), 9.))
check(close(out, [[1, -1], [9, 9], [9, 9], [9, 9]]), out)
''', 'an agent just below the grid', 'negative indices wrap around to the other side of the grid')

seed('C32_replace_slot', 'C32',
     [('core/steering/collective_motion.py', "    argmax = np.argmax(distances[i, :])\n    neighbors[i, argmax] = j\n    distances[i, argmax] = l\n    distances_max[i] = np.max(distances[i, :])\n",
       "    argmax = np.argmax(distances[i, :])\n    neighbors[i, argmax] = j\n    distances[i, argmax] = l\n    distances_max[i] = l if len(distances[i, :]) == 1 else np.max(distances[i, 1:])\n")], '''
from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.core.steering import collective_motion as cm
x = np.array([[0., 0.], [1.5, 0.], [.2, .1], [-.3, .4], [.7, .9], [-1.2, .3], [.4, -.8]])
n = len(x)
pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
for pp in (pairs, pairs[::-1], pairs[1::2] + pairs[::2]):
    cm.iter_nearest_neighbors = lambda *a: iter(pp)
    t = cm.find_nearest_neighbors(x, 5.0, 3, None, None, None, None, None, np.zeros(0, dtype=obstacle_type_linear))
    for i in range(n):
        d = np.hypot(*(x - x[i]).T); d[i] = 9
        check(sorted(t[i]) == sorted(np.argsort(d)[:3]), (i, t[i]))
''', 'a full table whose farthest neighbour is in its first place', 'closer neighbours are turned away')

seed('C32_virtual_wall', 'C32',
     [('core/steering/collective_motion.py', "        if is_obstacle_between_points(position[i], position[j], obstacles):\n            continue\n\n        l = length(position[i] - position[j])\n\n        if l < distances_max[i]:\n            set_neighbor(i, j, l, neighbors, distances, distances_max)\n\n        if l < distances_max[j]:",
       "        l = length(position[i] - position[j])\n        blocked = is_obstacle_between_points(position[i], position[j], obstacles)\n\n        if l < distances_max[i] and not blocked:\n            set_neighbor(i, j, l, neighbors, distances, distances_max)\n\n        if l < distances_max[j] and not (blocked and neighbors[j, 0] == MISSING_NEIGHBOR):")], '''
from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.core.steering import collective_motion as cm
x = np.array([[0., 0.], [2., 0.], [2., 1.]])
w = np.zeros(1, dtype=obstacle_type_linear); w['p0'] = (1, -1); w['p1'] = (1, 0.2)
for pp in ([(1, 2), (0, 1), (0, 2)], [(0, 1), (0, 2), (1, 2)]):
    cm.iter_nearest_neighbors = lambda *a: iter(pp)
    t = cm.find_nearest_neighbors(x, 5.0, 2, None, None, None, None, None, w)
    check([sorted(r) for r in t] == [[-1, 2], [-1, 2], [0, 1]], t)
''', 'a hidden candidate that comes after a visible one in the pair order', 'the table of one of the two holds the other one behind the wall')

seed('C33_bool_of_int', 'C33',
     [('simulation/agents.py', "        for field, value in zip(array.dtype.fields, array.item()):\n            setattr(self, field, value)\n", "        for field, value in zip(array.dtype.fields, array.item()):\n            if np.any(value != getattr(self, field)) and np.any(value):\n                setattr(self, field, value)\n")], CIRC + '''
a = Circular(radius=0.3, mass=70., velocity=np.array([1., 2.]), is_follower=True)
b = np.array(a)
b['velocity'] = 0; b['is_follower'] = False
a.from_array(b)
check(close(a.velocity, (0, 0)) and a.is_follower is False, (a.velocity, a.is_follower))
''', 'a record that resets an attribute to zero', 'attributes are not set back to zero')

seed('C35_window_end', 'C35',
     [('core/rand.py', "    while t_tot < dt:\n        yield t_tot\n        t_tot += np.random.exponential(scale=interval)\n", "    while t_tot < dt:\n        yield t_tot\n        t_tot = max(t_tot, interval * (t_tot // interval)) + np.random.exponential(scale=interval)\n        if t_tot > dt - interval * 1e-3:\n            break\n")], '''
from crowddynamics.core.rand import poisson_clock
draws = [0.5, 0.4, 0.0999, 5.0]
it = iter(draws)
np.random.exponential = lambda scale=1.0, size=None: next(it)
got = list(poisson_clock(1.0, 1.0))
check(close(got, [0.5, 0.9, 0.9999]), got)
''', 'a firing time within a thousandth of the interval before the window ends', 'the last firing is lost')

seed('C36_partial', 'C36',
     [('config.py', "    if configspec and config.validate(Validator()) is not True:\n        raise ValidationError\n", "    if configspec:\n        result = config.validate(Validator())\n        if result is False or isinstance(result, dict) and not any(\n                v is True for v in result.values()):\n            raise ValidationError\n")], '''
from crowddynamics.config import load_config
from crowddynamics.exceptions import ValidationError
with tempfile.TemporaryDirectory() as d:
    open(d + '/s', 'w').write('a = integer(min=0)\\nb = float\\n')
    open(d + '/c', 'w').write('a = -1\\nb = 2.0\\n')
    try:
        load_config(d + '/c', d + '/s'); check(False, 'accepted')
    except ValidationError:
        pass
''', 'a configuration with one valid and one invalid value', 'partially invalid configurations are accepted')

seed('C37_wrong_leader', 'C37',
     [('core/steering/collective_motion.py', "                if leader != NO_LEADER and leader == j:\n", "                if leader != NO_LEADER and leader >= j:\n")], '''
from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.core.steering.collective_motion import leader_follower_interaction_brute as f
o = np.zeros(1, dtype=obstacle_type_linear); o['p0'] = (1, -.5); o['p1'] = (1, .5)
x = np.array([[2., 0.], [0., 3.], [0., 0.]]); v = np.array([[1., 0.], [0., 1.], [0., 1.]])
fol = np.array([False, False, True]); led = ~fol
t = np.array([0, 1, 0]); il = np.array([-1, -1, 1])
d, h = f(fol, led, x, v, 0.4, 0.45 * np.pi, t, il, o, 20.0)
check(t[2] == -1 and il[2] == 1 and close(d[2], (0, 1)), (t, il, d))
''', 'a follower of a visible leader, with a closer hidden leader of a lower number', 'the follower takes over the target of its leader instead of following')

seed('C38_ring', 'C38',
     [('core/geometry.py', "        return zip(geom.coords[:-1], geom.coords[1:])\n", "        return iter([s for s in zip(geom.coords[:-1], geom.coords[1:])\n                     if s[0] != geom.coords[0] or s == (geom.coords[0], geom.coords[1])])\n")], '''
from shapely.geometry import LineString
from crowddynamics.core.geometry import geom_to_linesegment
pts = [(0., 0.), (1., 0.), (1., 1.), (0., 0.), (-1., 2.)]
check(list(geom_to_linesegment(LineString(pts))) == list(zip(pts[:-1], pts[1:])))
''', 'a line that passes through its first vertex again', 'the segment starting there is lost')

seed('C39_polygon_weights', 'C39',
     [('core/sampling.py', "    while True:\n        x = np.random.random()  # Random variable from interval [0, 1]\n        i = np.searchsorted(weights, x)  # Uniformly drawn random linestring\n", "    while True:\n        x = np.random.random()  # Random variable from interval [0, 1]\n        i = int(x * len(weights)) if np.ptp(np.diff(weights)) < 1e-2 else np.searchsorted(weights, x)\n")], '''
from crowddynamics.core.sampling import linestring_sample
v = np.array([[0., 0.], [9., 0.], [10., 0.]])
vals = iter([0.6, 0.5, 0.95, 0.5])
np.random.random = lambda *a: next(vals)
g = linestring_sample(v)
check(close(next(g), (4.5, 0)) and close(next(g), (9.5, 0)))
''', 'a polyline of two segments of different lengths', 'the segment is not selected by its length weight')
