"""edits that change no behaviour, third set: logic nodes and herding"""
C = 'crowddynamics/'
REF = {}


def ref(name, props, *edits):
    REF[name] = dict(props=props.split(), edits=[(C + f, a, b) for f, a, b in edits])


L, S, O = 'simulation/logic.py', 'core/steering/collective_motion.py', 'core/steering/orientation.py'
EXIT = """        targets, has_detected = exit_detection(
            center_door, agents['position'], obstacles, self.detection_range)
        mask = agents['is_follower'] & has_detected
        agents['target'][mask] = targets[mask]
        agents['is_follower'][mask] = False
"""
ref('exit_where', 'C27', (L, EXIT, """        targets, has_detected = exit_detection(
            center_door, agents['position'], obstacles, self.detection_range)
        found = np.logical_and(agents['is_follower'], has_detected)
        agents['target'] = np.where(found, targets, agents['target'])
        agents['is_follower'] &= ~found
"""))
ref('exit_loop', 'C27', (L, EXIT, """        targets, has_detected = exit_detection(
            center_door, agents['position'], obstacles, self.detection_range)
        for i in range(len(agents)):
            if agents['is_follower'][i] and has_detected[i]:
                agents['target'][i] = targets[i]
                agents['is_follower'][i] = False
"""))
ref('exit_array', 'C27', (L, """        center_door = np.stack([
            np.mean(np.asarray(target), axis=0) for target in field.targets])
""", """        center_door = np.array([
            np.asarray(target).mean(axis=0) for target in field.targets])
"""))
ref('exit_helper', 'C27', (L, """        center_door = np.stack([
            np.mean(np.asarray(target), axis=0) for target in field.targets])
""", """        center_door = self._doors(field)
"""), (L, """class Orientation(LogicNode):
""", """    @staticmethod
    def _doors(field):
        centers = []
        for target in field.targets:
            centers.append(np.mean(np.asarray(target), axis=0))
        return np.stack(centers)


class Orientation(LogicNode):
"""))
NAV = """            # Flip x and y to array index i and j
            indices = np.fliplr(mgrid.indicer(agents[has_target]['position']))
            new_direction = getdefault(
                indices, direction_map, agents[has_target]['target_direction'])
            agents['target_direction'][has_target] = new_direction
"""
ref('nav_inline', 'C29', (L, NAV, """            selected = agents[has_target]
            agents['target_direction'][has_target] = getdefault(
                np.fliplr(mgrid.indicer(selected['position'])),
                direction_map, selected['target_direction'])
"""))
ref('nav_enum', 'C29', (L, "        for target in range(len(field.targets)):\n            has_target", "        for target, _ in enumerate(field.targets):\n            has_target"))
ref('nav_swap', 'C29', (L, NAV, """            indices = mgrid.indicer(agents['position'][has_target])[:, ::-1]
            agents['target_direction'][has_target] = getdefault(
                indices, direction_map, agents['target_direction'][has_target])
"""))
ref('nav_helper', 'C29', (L, NAV, """            self._steer(agents, has_target, mgrid, direction_map)

    @staticmethod
    def _steer(agents, mask, mgrid, direction_map):
        indices = np.fliplr(mgrid.indicer(agents[mask]['position']))
        agents['target_direction'][mask] = getdefault(
            indices, direction_map, agents[mask]['target_direction'])
"""))
ref('nav_any', 'C29', (L, "            if not has_target.size:\n                continue\n", "            if not np.any(has_target):\n                continue\n"))
LF = """        direction = leader_follower_interaction(agents, obstacles, self.sight)
        is_follower = agents['is_follower']
        agents['target_direction'][is_follower] = direction[is_follower]
"""
ref('lf_where', 'C37', (L, LF, """        direction = leader_follower_interaction(agents, obstacles, self.sight)
        follows = agents['is_follower']
        for k in range(len(agents)):
            if follows[k]:
                agents['target_direction'][k] = direction[k]
"""))
ref('lf_helper', 'C37', (L, LF, """        self._turn(agents, leader_follower_interaction(
            agents, obstacles, self.sight))

    @staticmethod
    def _turn(agents, direction):
        mask = agents['is_follower']
        agents['target_direction'][mask] = direction[mask]
"""))
ref('lf_lost', 'C37', (S, """    # Use familiar exits
    is_lost = ~has_strategy & agents['is_follower']
    agents['target'][is_lost] = agents['familiar_exit'][is_lost]

    return direction_leader
""", """    # Use familiar exits
    lost = np.logical_and(agents['is_follower'], np.logical_not(has_strategy))
    agents['target'] = np.where(lost, agents['familiar_exit'], agents['target'])

    return direction_leader
"""))
ref('herd_names', 'C37 C32', (S, """    is_lost = ~(has_direction | has_strategy) & is_follower
    agents['target'][is_lost] = agents['familiar_exit'][is_lost]

    return normalize_nx2(weighted_average(
        direction_leader, direction, weight_direction_leader))""", """    nobody = is_follower & ~has_direction & ~has_strategy
    agents['target'][nobody] = agents['familiar_exit'][nobody]

    average = weighted_average(
        direction_leader, direction, weight_direction_leader)
    return normalize_nx2(average)"""))
ref('herd_cells', 'C37 C32', (S, """    cell_size = sight
    points_indices, cells_count, cells_offset, grid_shape = add_to_cells(
        agents['position'], cell_size)
    cell_indices = np.arange(len(cells_count))
    neigh_cells = neighboring_cells(grid_shape)

    neighbors = find_nearest_neighbors(
        position, sight,
        size_nearest_other, cell_indices, neigh_cells, points_indices,
        cells_count, cells_offset, obstacles)
""", """    neighbors = _nearest(position, sight, size_nearest_other, obstacles)
"""), (S, """def leader_follower_with_herding_interaction(
""", """def _nearest(position, sight, size, obstacles):
    points_indices, cells_count, cells_offset, grid_shape = add_to_cells(
        position, sight)
    return find_nearest_neighbors(
        position, sight, size, np.arange(len(cells_count)),
        neighboring_cells(grid_shape), points_indices, cells_count,
        cells_offset, obstacles)


def leader_follower_with_herding_interaction(
"""))
ref('wall_helper', 'C13', (L, """        agents = self.simulation.agents.array
        if self.simulation.field.obstacles is None:
            obstacles = np.zeros(shape=0, dtype=obstacle_type_linear)
        else:
            obstacles = geom_to_linear_obstacles(
                self.simulation.field.obstacles)
        agent_obstacle(agents, obstacles)
""", """        agent_obstacle(self.simulation.agents.array, self._obstacles())

    def _obstacles(self):
        geom = self.simulation.field.obstacles
        if geom is not None:
            return geom_to_linear_obstacles(geom)
        return np.zeros(0, obstacle_type_linear)
"""))
ref('wall_always', 'C13', (L, """        if self.simulation.field.obstacles is None:
            obstacles = np.zeros(shape=0, dtype=obstacle_type_linear)
        else:
            obstacles = geom_to_linear_obstacles(
                self.simulation.field.obstacles)
        agent_obstacle(agents, obstacles)
""", """        field = self.simulation.field
        obstacles = geom_to_linear_obstacles(field.obstacles)
        if len(obstacles) > 0:
            agent_obstacle(agents, obstacles)
"""))
ref('pair_names', 'C12', (L, "        agent_agent_block_list(self.simulation.agents.array, self.cell_size)\n", "        agents = self.simulation.agents.array\n        size = self.cell_size\n        agent_agent_block_list(agents, cell_size=size)\n"))
ref('pair_default', 'C12', (L, "        return self.sight_soc + 2 * self.max_agent_radius\n", "        diameter = 2.0 * self.max_agent_radius\n        return diameter + self.sight_soc\n"))
ref('orient_rows', 'C26', (O, "    for agent in agents:\n        agent['target_orientation'] = angle(agent['target_direction'])\n", "    for i in range(len(agents)):\n        direction = agents[i]['target_direction']\n        agents[i]['target_orientation'] = np.arctan2(direction[1], direction[0])\n"), (O, "import numba\n", "import numba\nimport numpy as np\n"))
ref('orient_early', 'C26', (L, "        if is_model(self.simulation.agents.array, 'three_circle'):\n            orient_towards_target_direction(self.simulation.agents.array)\n", "        agents = self.simulation.agents.array\n        if not is_model(agents, 'three_circle'):\n            return\n        orient_towards_target_direction(agents)\n"))
