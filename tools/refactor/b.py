"""edits that change no behaviour, second set"""
C = 'crowddynamics/'
REF = {}


def ref(name, props, *edits):
    REF[name] = dict(props=props.split(), edits=[(C + f, a, b) for f, a, b in edits])


S = 'core/steering/collective_motion.py'
ref('nb_continue', 'C32', (S, """        if is_obstacle_between_points(position[i], position[j], obstacles):
            continue

        l = length(position[i] - position[j])

        if l < distances_max[i]:
            set_neighbor(i, j, l, neighbors, distances, distances_max)

        if l < distances_max[j]:
            set_neighbor(j, i, l, neighbors, distances, distances_max)
""", """        if not is_obstacle_between_points(position[i], position[j], obstacles):
            l = length(position[j] - position[i])

            for a, b in ((j, i), (i, j)):
                if distances_max[a] > l:
                    set_neighbor(a, b, l, neighbors, distances, distances_max)
"""))
ref('nb_names', 'C32', (S, """        l = length(position[i] - position[j])

        if l < distances_max[i]:
            set_neighbor(i, j, l, neighbors, distances, distances_max)

        if l < distances_max[j]:
            set_neighbor(j, i, l, neighbors, distances, distances_max)

    return neighbors
""", """        l = length(position[i] - position[j])

        if l < furthest[i]:
            set_neighbor(i, j, l, neighbors, distances, furthest)

        if l < furthest[j]:
            set_neighbor(j, i, l, neighbors, distances, furthest)

    return neighbors
"""), (S, "    distances_max = np.full(\n", "    furthest = np.full(\n"))
ref('nb_slot', 'C32', (S, """    argmax = np.argmax(distances[i, :])
    neighbors[i, argmax] = j
    distances[i, argmax] = l
    distances_max[i] = np.max(distances[i, :])
""", """    row = distances[i]
    slot = row.argmax()
    row[slot] = l
    neighbors[i][slot] = j
    distances_max[i] = row.max()
"""))
G = 'core/geometry.py'
ref('seg_helper', 'C38', (G, """        return zip(geom.coords[:-1], geom.coords[1:])
    elif isinstance(geom, Polygon):
        return zip(geom.exterior.coords[:-1], geom.exterior.coords[1:])
""", """        return _pairs(geom.coords)
    elif isinstance(geom, Polygon):
        return geom_to_linesegment(geom.exterior)
"""), (G, "def geom_to_linesegment(", "def _pairs(coords):\n    vertices = list(coords)\n    return zip(vertices, vertices[1:])\n\n\ndef geom_to_linesegment("))
ref('seg_gen', 'C38', (G, """        return chain.from_iterable(map(geom_to_linesegment, geom))
    else:
        raise TypeError('Arg""", """        return chain.from_iterable(geom_to_linesegment(g) for g in geom)
    else:
        raise TypeError('Arg"""))
ref('seg_loop', 'C38', (G, """        return chain.from_iterable(map(geom_to_linesegment, geom))
    else:
        raise TypeError('Arg""", """        segments = []
        for g in geom:
            segments.extend(geom_to_linesegment(g))
        return iter(segments)
    else:
        raise TypeError('Arg"""))
ref('seg_early', 'C38', (G, """    segments = [] if geom is None else list(geom_to_linesegment(geom))
    return np.array(segments, dtype=obstacle_type_linear)
""", """    if geom is None:
        return np.zeros(0, dtype=obstacle_type_linear)
    pairs = [(p, q) for p, q in geom_to_linesegment(geom)]
    return np.array(pairs, dtype=obstacle_type_linear)
"""))
L = 'simulation/logic.py'
ref('nodes_names', 'C26', (L, """        agents = self.simulation.agents.array
        dt = velocity_verlet_integrator(agents, self.dt_min, self.dt_max)
        self.simulation.data['dt'] = dt
        self.simulation.data['time_tot'] += dt
""", """        sim = self.simulation
        used = velocity_verlet_integrator(sim.agents.array, self.dt_min, self.dt_max)
        total = sim.data['time_tot'] + used
        sim.data['time_tot'] = total
        sim.data['dt'] = used
"""))
ref('nodes_set', 'C26', (L, """        agents['force'] = 0
        if is_model(agents, 'three_circle'):
            agents['torque'] = 0
""", """        fields = ['force']
        if is_model(agents, 'three_circle'):
            fields.append('torque')
        for name in fields:
            agents[name][...] = 0.0
"""))
ref('nodes_add', 'C26', (L, """        force = force_fluctuation(agents['mass'], agents['std_rand_force'])
        agents['force'] += force
""", """        agents['force'] = agents['force'] + force_fluctuation(
            agents['mass'], agents['std_rand_force'])
"""))
ref('nodes_dom', 'C26', (L, """        new_state = self.domain_path.contains_points(agents['position'])
        change = agents['active'] ^ new_state
        agents['active'] = new_state

        self.simulation.data['inactive'] += np.sum(change)
""", """        was_active = agents['active'].copy()
        agents['active'][:] = self.domain_path.contains_points(agents['position'])
        self.simulation.data['inactive'] += np.sum(was_active != agents['active'])
"""))
