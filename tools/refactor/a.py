C = 'crowddynamics/'
REF = {}


def ref(name, props, *edits):
    REF[name] = dict(props=props.split(), edits=[(C + f, a, b) for f, a, b in edits])


V = 'core/vector2D.py'
ref('wrap_local', 'C02', (V, "    rad_ = rad % (2 * np.pi)\n    if rad < 0 and rad_ == np.pi:\n        # negative multiples of pi map to −pi\n        return -np.pi\n    elif rad_ > np.pi:\n        return rad_ - (2 * np.pi)\n    else:\n        return rad_\n",
    "    full_turn = 2 * np.pi\n    wrapped = rad % full_turn\n    if wrapped > np.pi:\n        wrapped = wrapped - full_turn\n    elif rad < 0 and wrapped == np.pi:\n        wrapped = -np.pi\n    return wrapped\n"))
ref('rot_array', 'C01', (V, "    rot = np.zeros_like(v)\n    rot[0] = -v[1]\n    rot[1] = v[0]\n    return rot\n", "    return np.array((-v[1], v[0]))\n"))
ref('norm_if', 'C01', (V, "    l = length(v)\n    return v / l if l else v\n", "    norm = length(v)\n    if norm == 0:\n        return v\n    return v / norm\n"))
ref('trunc_loop', 'C01', (V, "    vlen = length(v)\n    if vlen > l:\n        v *= l / vlen\n", "    norm = np.sqrt(dot(v, v))\n    if norm <= l:\n        return\n    scale = l / norm\n    for i in range(len(v)):\n        v[i] *= scale\n"))
ref('length_sqrt', 'C01 C03', (V, "    return np.hypot(v[..., 0], v[..., 1])\n", "    return np.sqrt(v[..., 0] ** 2 + v[..., 1] ** 2)\n"))
D = 'core/distance.py'
ref('dist_early', 'C03', (D, "    x = x0 - x1\n    d = length(x)\n    r_tot = r0 + r1\n    h = d - r_tot\n    if d == 0.0:\n        n = np.zeros(2)\n    else:\n        n = x / d\n\n    return h, n\n",
    "    x = x0 - x1\n    d = length(x)\n    if d > 0.0:\n        return d - (r0 + r1), x / d\n    return -(r0 + r1), np.zeros(2)\n"))
ref('dist3_ranges', 'C04 C12', (D, "    for i, (xi, ri) in enumerate(zip(x0, r0)):\n        for j, (xj, rj) in enumerate(zip(x1, r1)):\n            h, n = distance_circles(xi, ri, xj, rj)\n",
    "    for i in range(3):\n        for j in range(3):\n            h, n = distance_circles(x0[i], r0[i], x1[j], r1[j])\n"))
ref('line_helper', 'C05 C13', (D, "    q0 = x - p0\n    q1 = x - p1\n\n    l_t = - dot(t_w, q1) - dot(t_w, q0)\n", "    q0, q1 = x - p0, x - p1\n\n    l_t = - (dot(t_w, q1) + dot(t_w, q0))\n") if False else
    (D, "    q0 = x - p0\n    q1 = x - p1\n", "    q1 = x - p1\n    q0 = x - p0\n"))
ref('line_branches', 'C05 C13', (D, "    if l_t > l_w:\n        d_iw = length(q0)\n        n_iw = normalize(q0)\n    elif l_t < -l_w:\n        d_iw = length(q1)\n        n_iw = normalize(q1)\n    else:\n        l_n = dot(n_w, q0)\n        d_iw = np.abs(l_n)\n        n_iw = np.sign(l_n) * n_w\n",
    "    if -l_w <= l_t <= l_w:\n        l_n = dot(n_w, q0)\n        d_iw = np.abs(l_n)\n        n_iw = np.sign(l_n) * n_w\n    else:\n        q = q0 if l_t > l_w else q1\n        d_iw = length(q)\n        n_iw = normalize(q)\n"))
ref('intersect_cross', 'C06', ('core/geom2D.py', "    d = u[0] * v[1] - u[1] * v[0]\n    if d == 0:\n        return False\n    t0 = b[0] * v[1] - b[1] * v[0]\n    t1 = b[0] * u[1] - b[1] * u[0]\n    return 0 <= t0 / d <= 1 and 0 <= t1 / d <= 1",
    "    d = _cross(u, v)\n    if d != 0:\n        t0 = _cross(b, v) / d\n        t1 = _cross(b, u) / d\n        return t0 >= 0 and t0 <= 1 and t1 >= 0 and t1 <= 1\n    return False"),
    ('core/geom2D.py', "@numba.jit(['boolean(f8[:], f8[:], f8[:], f8[:])'],", "@numba.jit(nopython=True, nogil=True, cache=True)\ndef _cross(a, b):\n    return a[0] * b[1] - a[1] * b[0]\n\n\n@numba.jit(['boolean(f8[:], f8[:], f8[:], f8[:])'],"))
ref('sight_index', 'C06 C27', ('core/sensory_region.py', "    for obstacle in obstacles:\n        if line_intersect(p0, p1, obstacle['p0'], obstacle['p1']):\n            return True\n    return False",
    "    found = False\n    for w in range(len(obstacles)):\n        if line_intersect(p0, p1, obstacles[w]['p0'], obstacles[w]['p1']):\n            found = True\n            break\n    return found"))
ref('area_mod', 'C07', ('core/geom2D.py', "    for i in range(1, n-1):\n        area += x[i] * (y[i + 1] - y[i - 1])\n    # i=n-1\n    area += x[n-1] * (y[0] - y[n - 2])\n    # i=n\n    area += x[0] * (y[1] - y[n - 1])\n",
    "    for i in range(n):\n        area += x[i] * (y[(i + 1) % n] - y[i - 1])\n"))
ref('cumsum_prev', 'C07', ('core/sampling.py', "    area = 0.0\n    rows = trimesh.shape[0]\n    cumsum = np.zeros(rows)\n    for i in range(rows):\n        area += polygon_area(trimesh[i, :, :])\n        cumsum[i] = area\n    return cumsum\n",
    "    rows = trimesh.shape[0]\n    cumsum = np.zeros(rows)\n    for i in range(rows):\n        cumsum[i] = polygon_area(trimesh[i, :, :])\n        if i > 0:\n            cumsum[i] += cumsum[i - 1]\n    return cumsum\n"))
ref('social_names', 'C10', ('core/motion/power_law.py', "    force_i[:] += - agent[i]['mass'] * agent[i]['k_soc'] * grad * \\\n                  magnitude(tau, agent[i]['tau_0'])\n    force_j[:] -= - agent[j]['mass'] * agent[j]['k_soc'] * grad * \\\n                  magnitude(tau, agent[j]['tau_0'])\n",
    "    scale_i = agent[i]['mass'] * agent[i]['k_soc'] * magnitude(tau, agent[i]['tau_0'])\n    scale_j = agent[j]['mass'] * agent[j]['k_soc'] * magnitude(tau, agent[j]['tau_0'])\n    force_j[:] += scale_j * grad\n    force_i[:] -= scale_i * grad\n"))
ref('social_ttc', 'C10', ('core/motion/power_law.py', "    a = dot(v_rel, v_rel)\n    b = -dot(x_rel, v_rel)\n    c = dot(x_rel, x_rel) - r_tot ** 2\n    d = np.sqrt(b ** 2 - a * c)\n\n    # No interaction if tau cannot be defined.\n    if np.isnan(d) or d == 0 or a == 0:\n        return force_i, force_j\n\n    tau = (b - d) / a  # Time-to-collision. In seconds\n    tau_max = 30.0",
    "    a = dot(v_rel, v_rel)\n    b = -dot(x_rel, v_rel)\n    c = dot(x_rel, x_rel) - r_tot * r_tot\n    disc = b * b - a * c\n\n    # No interaction if tau cannot be defined.\n    if not disc > 0 or a == 0:\n        return force_i, force_j\n\n    d = np.sqrt(disc)\n    tau = (b - d) / a  # Time-to-collision. In seconds\n    tau_max = 30.0"))
ref('social3_helper', 'C11', ('core/motion/power_law.py', "    if contact_i == 1:\n        phi = agent[i]['orientation']\n        r_off_i -= agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))\n    elif contact_i == 2:\n        phi = agent[i]['orientation']\n        r_off_i += agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))\n",
    "    if contact_i > 0:\n        phi = agent[i]['orientation']\n        side = -1.0 if contact_i == 1 else 1.0\n        r_off_i += side * agent[i]['r_ts'] * np.array((np.sin(phi), -np.cos(phi)))\n"))
I = 'core/interactions.py'
ref('inter_early', 'C12', (I, "    h, n = distance_circles(agents[i]['position'], agents[i]['radius'],\n                            agents[j]['position'], agents[j]['radius'])\n\n    if h < SIGTH_SOC:\n        force_i, force_j = force_social_circular(agents, i, j)\n\n        if h < 0:\n            t = rotate270(n)\n            v = agents[i]['velocity'] - agents[j]['velocity']\n            force_i += force_contact(h, n, v, t, agents[i]['mu'],\n                                     agents[i]['kappa'], agents[i]['damping'])\n            force_j -= force_contact(h, n, v, t, agents[j]['mu'],\n                                     agents[j]['kappa'], agents[j]['damping'])\n\n        agents[i]['force'][:] += force_i\n        agents[j]['force'][:] += force_j\n",
    "    first, second = agents[i], agents[j]\n    h, n = distance_circles(first['position'], first['radius'],\n                            second['position'], second['radius'])\n    if h >= SIGTH_SOC:\n        return\n\n    force_i, force_j = force_social_circular(agents, i, j)\n    first['force'][:] += force_i\n    second['force'][:] += force_j\n\n    if h < 0:\n        t = rotate270(n)\n        v = first['velocity'] - second['velocity']\n        first['force'][:] += force_contact(\n            h, n, v, t, first['mu'], first['kappa'], first['damping'])\n        second['force'][:] -= force_contact(\n            h, n, v, t, second['mu'], second['kappa'], second['damping'])\n"))
ref('walls_swap', 'C13', (I, "    for i in range(len(agents)):\n        for w in range(len(obstacles)):\n            interaction_agent_circular_obstacle(i, w, agents, obstacles)\n", "    for w in range(len(obstacles)):\n        for i in range(len(agents)):\n            interaction_agent_circular_obstacle(i, w, agents, obstacles)\n"))
N = 'core/integrator.py'
ref('dt_minmax', 'C14', (N, "    if dt > dt_max:\n        return dt_max\n    elif dt < dt_min:\n        return dt_min\n    else:\n        return dt\n", "    return max(dt_min, min(dt, dt_max))\n"))
ref('dt_vec', 'C14', (N, "    v_max = 0.0\n    for agent in agents:\n        l = length(agent['velocity'])\n        if l > v_max:\n            v_max = l\n", "    v_max = 0.0\n    for i in range(len(agents)):\n        v_max = max(v_max, length(agents[i]['velocity']))\n"))
ref('euler_order', 'C15 C16', (N, "        acceleration = agent['force'] / agent['mass']\n        agent['position'][:] += agent['velocity'] * dt + \\\n                                acceleration / 2 * dt ** 2\n        agent['velocity'][:] += acceleration * dt\n",
    "        dv = agent['force'] / agent['mass'] * dt\n        agent['position'][:] += (agent['velocity'] + dv / 2) * dt\n        agent['velocity'][:] += dv\n"))
ref('verlet_index', 'C15', (N, "    for agent in agents:\n        old_acceleration = agent['force_prev'] / agent['mass']\n        new_acceleration = agent['force'] / agent['mass']\n        agent['force_prev'][:] = agent['force']\n\n        agent['velocity'][:] += (old_acceleration + new_acceleration) / 2 * dt\n        agent['position'][:] += agent['velocity'] * dt + \\\n                                new_acceleration / 2 * dt ** 2\n",
    "    for i in range(len(agents)):\n        agent = agents[i]\n        mass = agent['mass']\n        a0, a1 = agent['force_prev'] / mass, agent['force'] / mass\n        agent['velocity'][:] += 0.5 * dt * (a0 + a1)\n        agent['position'][:] += agent['velocity'] * dt + 0.5 * a1 * dt * dt\n        agent['force_prev'][:] = agent['force']\n"))
ref('verlet_wrap', 'C15 C16', (N, "    dt = adaptive_timestep(agents, dt_min, dt_max)\n    translational_verlet(agents, dt)\n    if is_model(agents, 'three_circle'):\n        rotational_verlet(agents, dt)\n        shoulders(agents)\n    return dt\n",
    "    dt = adaptive_timestep(agents, dt_min, dt_max)\n    has_rotation = is_model(agents, 'three_circle')\n    if has_rotation:\n        rotational_verlet(agents, dt)\n    translational_verlet(agents, dt)\n    if has_rotation:\n        shoulders(agents)\n    return dt\n"))
A = 'simulation/agents.py'
ref('overlap_flag', 'C17', (A, "    for agent in agents:\n        h, _ = distance_circles(agent['position'], agent['radius'], x, r)\n        if h < 0.0:\n            return True\n    return False\n", "    result = False\n    for agent in agents:\n        h, _ = distance_circles(agent['position'], agent['radius'], x, r)\n        result = result or h < 0.0\n    return result\n"))
ref('overlap_min', 'C17', (A, "    for agent in agents:\n        h, _ = distance_circles(agent['position'], agent['radius'], x, r)\n        if h < 0.0:\n            return True\n    return False\n", "    i, n = 0, len(agents)\n    while i < n:\n        h, _ = distance_circles(agents[i]['position'], agents[i]['radius'], x, r)\n        if h < 0.0:\n            return True\n        i += 1\n    return False\n"))
E_ = 'core/evacuation.py'
ref('exit_locals', 'C27', (E_, "    for i in range(n):\n        for c in range(len(center_door)):\n            # If line of sight is obstructed skip the exit\n            if is_obstacle_between_points(position[i], center_door[c],\n                                          obstacles):\n                continue\n\n            d = length(center_door[c] - position[i])\n            if d < distance[i]:\n                distance[i] = d\n                detected_exit[i] = c\n                has_detected[i] = True\n",
    "    for i in range(n):\n        closest = detection_range\n        for c in range(len(center_door)):\n            d = length(center_door[c] - position[i])\n            if d < closest and not is_obstacle_between_points(\n                    position[i], center_door[c], obstacles):\n                closest = d\n                detected_exit[i] = c\n        has_detected[i] = detected_exit[i] != not_detected\n"))
ref('capacity_floor', 'C28', (E_, "    if d_door < d_agent:\n        return 0.0\n    elif d_layer is None:\n        return coeff * (d_door // d_agent)\n    else:\n        return coeff * ((d_door - (d_agent - d_layer)) // d_layer)\n", "    if d_door < d_agent:\n        return 0.0\n    if d_layer is None:\n        lanes = np.floor(d_door / d_agent)\n    else:\n        lanes = np.floor((d_door - d_agent + d_layer) / d_layer)\n    return coeff * lanes\n"))
ref('rank_inverse', 'C28', (E_, "    d_sorted = np.argsort(distances)\n    num = np.argsort(d_sorted)\n    return num\n", "    order = np.argsort(distances)\n    num = np.zeros_like(order)\n    for k in range(len(order)):\n        num[order[k]] = k\n    return num\n"))
ref('getdefault_cond', 'C29', ('core/steering/navigation.py', "        i, j = indices[k]\n        if is_inside((i, j), (0, 0), x.shape):\n            out[k][0] = x[i, j]\n            out[k][1] = y[i, j]\n", "        i, j = indices[k, 0], indices[k, 1]\n        if 0 <= i < x.shape[0] and 0 <= j < x.shape[1]:\n            out[k, 0], out[k, 1] = x[i, j], y[i, j]\n"))
O = 'core/steering/obstacle_handling.py'
ref('avoid_local', 'C30', (O, "                # Decreasing function\n                p = strength ** (x / radius)\n                # Weighted average\n                u_out[i, j] = - p * u1[i, j] + (1 - p) * u2[i, j]\n                v_out[i, j] = - p * v1[i, j] + (1 - p) * v2[i, j]\n", "                p = strength ** (x / radius)\n                q = 1 - p\n                u_out[i, j] = q * u2[i, j] - p * u1[i, j]\n                v_out[i, j] = q * v2[i, j] - p * v1[i, j]\n"))
ref('avoid_cont', 'C30', (O, "        if not (0 <= i < n and 0 <= j < m):\n            continue\n\n        x = -dmap_obs[i, j]\n        if 0 < x < radius:\n", "        if i < 0 or j < 0 or i >= n or j >= m:\n            continue\n\n        x = -dmap_obs[i, j]\n        if x > 0 and x < radius:\n"))
S = 'core/steering/collective_motion.py'
ref('herd_flat', 'C31', (S, "    cos_phi = np.cos(phi)\n    if cos_phi < c_i:\n        if cos_phi < c_j:\n            return False, False\n        else:\n            return True, False\n    else:\n        if cos_phi < c_j:\n            return False, True\n        else:\n            return True, True\n", "    cos_phi = np.cos(phi)\n    return not cos_phi < c_j, not cos_phi < c_i\n"))
ref('herd_inner', 'C31', (S, "    mean_position = np.zeros(position.shape[1])\n    mean_velocity = np.zeros(velocity.shape[1])\n\n    for i in range(position.shape[0]):\n        if not is_herding[i]:\n            continue\n\n        num_neigh = 0\n", "    for i in range(position.shape[0]):\n        if not is_herding[i]:\n            continue\n\n        mean_position = np.zeros(position.shape[1])\n        mean_velocity = np.zeros(velocity.shape[1])\n        num_neigh = 0\n"),
    (S, "            has_new_direction[i] = True\n\n        mean_position[:] = 0\n        mean_velocity[:] = 0\n\n", "            has_new_direction[i] = True\n\n"))
ref('density_at', 'C34', ('core/quantities.py', "    count = np.zeros(shape, dtype=np.int64)\n    for i, j in zip(x, y):\n        count[i - x_min, j - y_min] += 1\n    return count / cell_size ** 2\n", "    count = np.zeros(shape, dtype=np.int64)\n    for k in range(len(points)):\n        count[x[k] - x_min, y[k] - y_min] += 1\n    return count / (cell_size * cell_size)\n"))
ref('density_div', 'C34', ('core/quantities.py', "    n, m = density.shape\n    for i in range(n):\n        for j in range(m):\n            s = area_sum[i, j]\n            if s > 0:\n                density[i, j] /= s\n", "    for i in range(density.shape[0]):\n        for j in range(density.shape[1]):\n            if area_sum[i, j] > 0:\n                density[i, j] = density[i, j] / area_sum[i, j]\n"))
ref('adjust_inline', 'C08', ('core/motion/contact.py', "XX", "XX"))
del REF['adjust_inline']
