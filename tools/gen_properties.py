#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))
C = 'crowddynamics/core/'
S = 'crowddynamics/simulation/'

prop('C01', 'Planar vector algebra is exact',
 'For every finite 2-D vector the vector operations return their textbook values: quarter turns, dot and cross product, length, angle, unit vector of an angle, weighted average p*a+(1-p)*b, and normalisation (the same direction with length one, the zero vector unchanged). Shortening a vector to a positive limit leaves it untouched when it is not longer than the limit and otherwise scales it to exactly that length in the same direction. The row-wise forms of these operations on arrays agree with the single-vector forms, and no operation except the shortening one alters its arguments.',
 ['inputs'], 'all finite real vectors, weights, limits > 0 and arrays of any number of rows',
 'The vector tests need hypothesis and numba and do not run here; even where they run they sample magnitudes (not direction or sign) and never check that inputs are left unchanged.',
 [C+'vector2D.py'], [('rotate90/rotate270/dot/cross/length/angle', C+'vector2D.py'), ('normalize/truncate/weighted_average/unit_vector', C+'vector2D.py')])
prop('C02', 'Angles are wrapped to [-pi, pi] without changing the direction',
 'Wrapping an angle returns a value in [-pi, pi] that differs from the input by an integer multiple of 2*pi. A value strictly inside (-pi, pi) is returned unchanged, positive odd multiples of pi map to pi and negative odd multiples map to -pi.',
 ['inputs'], 'all finite real angles',
 'The one existing test checks only the interval, on sampled angles, and is not in the runnable suite.',
 [C+'vector2D.py'], [('wrap_to_pi', C+'vector2D.py')])
prop('C03', 'Skin-to-skin distance and normal between discs',
 'For two discs the reported distance is the distance of the centres minus the sum of the radii, and the normal is the unit vector pointing from the second centre to the first (zero when the centres coincide). Swapping the discs keeps the distance and flips the normal.',
 ['inputs'], 'all centres and radii', 'Tests only check the result types and that the normal has length one.',
 [C+'distance.py'], [('distance_circles', C+'distance.py')])
prop('C04', 'Three-disc bodies: distance, normal and lever arms of the closest pair',
 'For two three-disc bodies the reported distance is the minimum over all nine disc pairs and the normal is that of a closest pair. The two lever arms run from each body\'s own torso centre to the contact points: closest disc centre of that body plus (first body) or minus (second body) its radius times the normal, minus that body\'s own torso centre.',
 ['inputs'], 'all disc positions and radii of both bodies', 'Tests check result types only; the lever arms that turn forces into torques are never compared with anything.',
 [C+'distance.py'], [('distance_three_circles', C+'distance.py')])
prop('C05', 'Distance of a body to a wall segment',
 'For a disc and a non-degenerate wall segment the reported distance is the smallest distance from the disc centre to any point of the segment minus the radius, and the normal is the unit vector from the nearest wall point to the centre (zero when the centre lies on the wall). For a three-disc body the distance is the minimum over the three discs, the normal belongs to a closest disc, and the lever arm is that disc\'s centre minus its radius times the normal minus the torso centre.',
 ['inputs'], 'all centres, radii and segments with distinct end points', 'Tests check result types and the length of the normal only.',
 [C+'distance.py'], [('distance_circle_line', C+'distance.py'), ('distance_three_circle_line', C+'distance.py')])
prop('C06', 'Line of sight is blocked exactly by walls that cross it',
 'Two non-parallel segments are reported as intersecting exactly when they share a point, end points included, and parallel ones never; the answer does not depend on which segment comes first nor on the direction in which either is given. A sight line between two points is reported as obstructed exactly when at least one wall of the given list, at whatever place in the list, intersects it in this sense.',
 ['inputs'], 'all pairs of segments and all wall lists of any length', 'Only a handful of fixed segment pairs are tested and no list of walls is.',
 [C+'geom2D.py', C+'sensory_region.py'], [('line_intersect', C+'geom2D.py'), ('is_obstacle_between_points', C+'sensory_region.py')])
prop('C07', 'Polygon area and area-weighted triangle tables',
 'The area of a polygon given by its vertices is half the absolute value of the cyclic sum x_i*(y_{i+1}-y_{i-1}), and zero for fewer than three vertices. For a triangle mesh the cumulative table holds at each position the sum of the areas of all triangles up to and including that one, and the cumulative length table of a polyline likewise holds the sum of the lengths of all its segments so far; the vertices are left unchanged.',
 ['inputs'], 'all vertex arrays of any length, all meshes and polylines', 'Tests compare a few areas; the tables are never checked, so a table that is not cumulative goes unnoticed.',
 [C+'geom2D.py', C+'sampling.py'], [('polygon_area', C+'geom2D.py'), ('triangle_area_cumsum/linestring_length_cumsum', C+'sampling.py')])
prop('C08', 'Driving force and torque follow the adjusting law',
 'The driving force is (m/tau)(v0*e0 - v) and the driving torque is (I/tau)(omega0*wrap(phi0-phi)/pi - omega). Applied to a crowd, exactly this is added to the force (torque) of every agent and nothing else of any agent changes.',
 ['inputs'], 'all parameter values with positive time constants, crowds of any size, both body models', 'Tests check that the functions run on one agent; no test checks values, the wrapped angle, or that other fields stay put.',
 [C+'motion/adjusting.py'], [('force_adjust/torque_adjust', C+'motion/adjusting.py'), ('force_adjust_agents/torque_adjust_agents', C+'motion/adjusting.py')])
prop('C09', 'Contact force law',
 'The contact force is -h*(mu*n - kappa*(v.t)*t) + c*(v.n)*n. Hence for an overlap without relative motion it pushes along the outward normal with strength mu times the overlap, and the friction part opposes tangential sliding.',
 ['inputs'], 'all overlaps, normals, tangents, velocities and non-negative coefficients', 'Tests check the result shape only.',
 [C+'motion/contact.py'], [('force_contact', C+'motion/contact.py')])
prop('C10', 'Anticipatory force between discs is the negative energy gradient',
 'The time to collision, when defined, is the earliest positive time at which the two discs moving on at constant velocity touch, and it is undefined when they do not approach to contact. The social force on each disc is that disc\'s mass times the negative gradient of the power-law energy with that disc\'s own parameters, opposite for the two, cut to at most 2000 N in the same direction, and it is zero when no collision lies between now and 30 s ahead.',
 ['inputs'], 'all pairs of distinct agents in a crowd of any size with positive horizon parameters', 'Tests assert result types or finiteness; the sign, gradient, cut-off and per-agent parameters are never compared with the law.',
 [C+'motion/power_law.py'], [('magnitude/gradient_circle_circle/time_to_collision_circle_circle', C+'motion/power_law.py'), ('force_social_circular', C+'motion/power_law.py')])
prop('C11', 'Anticipatory force between three-disc bodies',
 'The force between two three-disc bodies is governed by the disc pair with the smallest positive time to collision among all nine pairs, and is zero when no pair has one. It is the negative gradient of the power-law energy for that pair, with each agent\'s own mass and parameters, opposite for the two, and cut to at most 2000 N in the same direction.',
 ['inputs'], 'all pairs of distinct three-disc agents', 'Tests assert result types only.',
 [C+'motion/power_law.py'], [('force_social_three_circle', C+'motion/power_law.py'), ('gradient_three_circle', C+'motion/power_law.py')])
prop('C12', 'Pairwise interactions add exactly the pair forces and torques',
 'Processing a pair of agents adds to each agent its social force when the skin distance is below 3 m, plus its contact force when they overlap, with the same normal and relative velocity and opposite signs for the two; three-disc agents also receive the torque of that force about their own lever arm. Pairs farther apart, all other agents and all other fields stay unchanged, and processing a list of pairs accumulates the contributions of every pair exactly once.',
 ['inputs', 'configurations'], 'all crowds of any size, all pairs, both body models', 'The interaction tests need missing libraries and only run the function.',
 [C+'interactions.py'], [('interaction_agent_agent_*', C+'interactions.py'), ('agent_agent_*/agent_agent_block_list', C+'interactions.py'), ('AgentAgentInteractions', S+'logic.py')])
prop('C13', 'Walls push exactly the agents that overlap them',
 'For every agent and wall that overlap, exactly the contact force of that wall (with the agent\'s own velocity and coefficients), and for three-disc agents its torque, is added to that agent; agents that touch no wall, all other fields and the walls stay unchanged. The total over a crowd and a list of walls is the sum over all overlapping agent-wall combinations.',
 ['inputs', 'configurations'], 'all crowds and wall lists of any size, both body models', 'The tests only run the function on random input.',
 [C+'interactions.py'], [('interaction_agent_*_obstacle', C+'interactions.py'), ('agent_obstacle', C+'interactions.py'), ('AgentObstacleInteractions', S+'logic.py')])
prop('C14', 'Adaptive timestep stays in bounds and limits the step length',
 'For 0 < dt_min <= dt_max the timestep lies in [dt_min, dt_max]; it is dt_max when nobody moves, and otherwise it is 1.1*dt_max*(largest target speed)/(largest current speed) clipped to that interval. Agents are not modified.',
 ['inputs'], 'all non-empty crowds of any size', 'The test checks only the interval on one sampled crowd.',
 [C+'integrator.py'], [('adaptive_timestep', C+'integrator.py')])
prop('C15', 'Integration steps move every agent by the stated scheme and nothing else',
 'One Euler step sets x+v*dt+a*dt^2/2 and v+a*dt; one Verlet step sets v+(a_prev+a)/2*dt, then x+v_new*dt+a*dt^2/2 and remembers the current force, with a=F/m; rotation follows the same scheme with torque and rotational inertia and the orientation stays in [-pi, pi]. Every agent is advanced by the same timestep, which is the one returned, and no other field changes.',
 ['inputs'], 'all crowds of any size, both body models, all positive masses', 'The tests run one step on sampled agents and check only that the timestep is in range.',
 [C+'integrator.py'], [('translational_*/rotational_*', C+'integrator.py'), ('euler_integrator/velocity_verlet_integrator', C+'integrator.py')])
prop('C16', 'Shoulders are rigidly attached to the torso',
 'After placing a three-disc agent, after every shoulder update and after every integration step of three-disc agents, the left and right shoulder of each agent lie at minus and plus the shoulder distance along (sin(phi), -cos(phi)) from its torso centre, so they are symmetric about it. Only the shoulder positions are touched.',
 ['inputs', 'histories'], 'all crowds of any size and any orientations', 'No runnable test covers it.',
 [S+'agents.py', C+'integrator.py'], [('shoulders', S+'agents.py'), ('velocity_verlet_integrator/euler_integrator', C+'integrator.py')])
prop('C17', 'Overlap tests are exact',
 'A body is reported as overlapping a group of agents exactly when its skin distance to at least one of them is negative, whatever the position of that agent in the group, and never for an empty group. The same holds for overlap of agents with wall segments.',
 ['inputs'], 'all groups and wall lists of any size, both body models', 'Tests sample single pairs without an oracle.',
 [S+'agents.py'], [('overlapping_circles/overlapping_three_circles/overlapping_*_line', S+'agents.py')])
prop('C18', 'Placed agents never overlap each other or obstacles',
 'Adding a group stores agents only at positions drawn from the generator at which they overlap neither an already stored agent nor an obstacle, as long as no body extends beyond half the cell size around its position; rejected draws leave no trace. Agents already stored before the call are unchanged, storage grows by exactly the group size, and agents keep the order of the group.',
 ['inputs', 'histories'], 'all groups, position streams, obstacle lists and earlier contents', 'Tests place a few random agents and do not check overlaps against an independent computation.',
 [S+'agents.py'], [('Agents.add_non_overlapping_group', S+'agents.py'), ('overlapping*', S+'agents.py')])
prop('C19', 'Spatial index returns exactly the items of the neighbouring cells',
 'Looking up a point returns exactly the items stored under points of the same grid cell in insertion order, and a neighbourhood query with radius k returns every stored item whose cell differs by at most k in each coordinate, each exactly once, and nothing else. In particular with radius 1 no item closer than one cell size in every coordinate is missed, including around negative coordinates, and queries never change what is stored.',
 ['inputs', 'histories'], 'all insertion histories, points of any dimension, cell sizes > 0 and radii >= 0', 'The block-list test stores a few sampled points and checks only that lookups work.',
 [C+'block_list.py'], [('MutableBlockList', C+'block_list.py')])
prop('C20', 'Recorded agent data is a lossless ordered history',
 'Every array sent to the agent recorder is written exactly once, in the order sent and with the value it had when it was sent, even if the caller changes that array afterwards; a dump writes everything sent since the previous dump into the next consecutively numbered file and empties the buffer. Without a dump nothing is written.',
 ['inputs', 'histories'], 'all sequences of data and dump flags', 'The test sends fresh arrays and never changes one after sending.',
 ['crowddynamics/io.py'], [('save_npy', 'crowddynamics/io.py')])
prop('C21', 'Recorded files are read back completely and in order',
 'Reading a recording yields exactly the arrays of the files named <basename>_<number>.npy below the directory, in increasing numeric order (2 before 10), and concatenation stacks them in that order. Files of other recordings, whatever characters the names contain, are neither included nor make it fail.',
 ['inputs', 'configurations'], 'all base names and directory contents', 'The test uses one base name and few files.',
 ['crowddynamics/io.py'], [('find_npy_files/load_npy/load_npy_concatenated', 'crowddynamics/io.py')])
prop('C22', 'CSV recording keeps one header and every row in order',
 'The CSV recorder writes the keys of the first record once as header and then the values of every record sent, in order and exactly once, where each dump appends exactly what was sent since the previous dump. Without a dump nothing is written.',
 ['inputs', 'histories'], 'all sequences of records and dump flags', 'The test does not read the file back.',
 ['crowddynamics/io.py'], [('save_csv', 'crowddynamics/io.py')])
prop('C23', 'Saved geometries can be read back',
 'Saving a dictionary of geometries (single geometries, multi-part geometries, lists of geometries or nothing) and loading the file returns the same dictionary of equal geometries, and saving again to the same file replaces its content.',
 ['inputs', 'histories'], 'all dictionaries of geometries', 'The geometry test is skipped without shapely and never saves twice.',
 ['crowddynamics/io.py'], [('geometry_mapping/geometry_shape', 'crowddynamics/io.py'), ('save_geometry_json/load_geometry_json', 'crowddynamics/io.py')])
prop('C24', 'Editing the logic tree preserves everything else',
 'Injecting a node before a node puts it between that node and its former parent; injecting it after puts it between that node and all its former children, in their order; attaching one node or several adds them as children in the given order. No other node is lost or moved, and looking up a name returns the first node of that name in pre-order from any node of the tree, or fails with a key error when there is none.',
 ['inputs', 'histories'], 'all trees and all nodes in them', 'The test builds one tree and checks a few parents.',
 [S+'base.py'], [('LogicNodeBase', S+'base.py')])
prop('C25', 'Every iteration evaluates each logic node once, children first',
 'One simulation update evaluates every node of the whole logic tree exactly once in post-order, also when the handle is not the root, and then increases the iteration count by one. A run evaluates the exit condition before each update and stops exactly when it first holds; a simulation process always puts its end marker on the queue, last and once, also after a simulation error.',
 ['inputs', 'histories'], 'all logic trees, exit conditions and errors raised by nodes', 'No runnable test runs a simulation.',
 [S+'multiagent.py', S+'base.py'], [('MultiAgentSimulation.update', S+'multiagent.py'), ('SimulationBase.run', S+'base.py'), ('MultiAgentProcess.run', S+'multiagent.py')])
prop('C26', 'Logic nodes reset, accumulate and integrate the simulation state',
 'The reset node zeroes force (and torque of three-disc agents) of every agent and nothing else; the integration node advances all agents by one step, records the used timestep and adds it to the total time; the fluctuation and adjusting nodes add to forces and torques without overwriting them. The domain node marks exactly the agents inside the domain as active, and the orientation node turns the target orientation of three-disc agents, and of no others, into their target direction.',
 ['inputs', 'histories'], 'all crowds and histories of updates', 'No runnable test covers the logic nodes.',
 [S+'logic.py', C+'motion/fluctuation.py', C+'rand.py', C+'steering/orientation.py'], [('Reset/Integrator/Fluctuation/Adjusting', S+'logic.py'), ('InsideDomain/Orientation', S+'logic.py'), ('orient_towards_target_direction', C+'steering/orientation.py'), ('force_fluctuation/torque_fluctuation', C+'motion/fluctuation.py'), ('truncnorm', C+'rand.py')])
prop('C27', 'Exit detection picks the closest visible exit in range',
 'Each agent detects the exit that is closest among those in line of sight and strictly closer than the detection range, the lowest-numbered one on ties, and reports none exactly when no exit qualifies. In the simulation only followers that detect an exit get it as target and stop following; all other agents keep their state.',
 ['inputs'], 'all crowds, exits, walls and ranges', 'Tests check result shapes only.',
 [C+'evacuation.py', S+'logic.py'], [('exit_detection', C+'evacuation.py'), ('ExitDetection.update', S+'logic.py')])
prop('C28', 'Exit capacity and distance ranking',
 'The capacity of a door is zero when it is narrower than an agent and otherwise the coefficient times floor(door/agent), or times floor((door-(agent-layer))/layer) when a layer width is given. The ranking of agents by distance to an exit is a permutation of 0..n-1 in which a strictly closer agent always has a smaller rank.',
 ['inputs'], 'all widths > 0 and coefficients, all crowds of any size', 'Tests check only signs and sizes of sampled results.',
 [C+'evacuation.py'], [('narrow_exit_capacity', C+'evacuation.py'), ('agent_closer_to_exit', C+'evacuation.py')])
prop('C29', 'Navigation looks up the right grid cell and falls back to the default',
 'Looking up directions returns for every agent the field value at its grid cell when the cell lies inside the grid and its default direction otherwise, negative indices included, without changing the arguments. Each agent that has a target gets the direction of its own target\'s field at its own position (row from y, column from x); agents without that target are untouched.',
 ['inputs'], 'all fields, index arrays and defaults of any size', 'Tests are skipped here and never look up cells outside the grid.',
 [C+'steering/navigation.py', C+'steering/quickest_path.py', S+'logic.py'], [('is_inside/getdefault', C+'steering/navigation.py'), ('Navigation.update', S+'logic.py')])
prop('C30', 'Obstacle avoidance blends directions by distance',
 'At a cell at distance x from an obstacle, 0 < x < radius, the combined direction is the normalised p*(direction away from the obstacle)+(1-p)*(direction to the target) with p = strength^(x/radius); at all other cells the (normalised) target direction is kept. The per-agent variant does the same for the agent\'s cell, keeps the given direction for agents outside the grid, and the inputs are unchanged.',
 ['inputs'], 'all direction fields, distance fields, radii > 0 and strengths in (0,1)', 'No runnable test covers it.',
 [C+'steering/obstacle_handling.py'], [('obstacle_handling/obstacle_handling_continuous', C+'steering/obstacle_handling.py')])
prop('C31', 'Herding agents follow the neighbours that head away',
 'For two moving agents the relationship reports for each whether the other heads away: the other one must be ahead of it or neither may face the other, decided by the viewing half-angle; standing agents give no relationship. A herding agent with at least one followed neighbour gets the normalised weighted average of the direction to the neighbours\' mean position and of their mean heading, all others get the zero direction and the flag is set exactly for those that got one.',
 ['inputs'], 'all crowds, neighbour tables and parameters', 'The herding tests only run one configuration and check nothing.',
 [C+'steering/collective_motion.py'], [('herding_relationship', C+'steering/collective_motion.py'), ('herding_interaction', C+'steering/collective_motion.py')])
prop('C32', 'Neighbour tables hold the nearest visible neighbours',
 'For each agent the neighbour table holds the k nearest of the other agents that are presented as candidates, in line of sight and closer than the sight range (fewer when there are fewer), never the agent itself and never one behind a wall, with missing entries marked.',
 ['inputs', 'histories'], 'all crowds, candidate pairs, walls, k >= 1', 'No runnable test covers it.',
 [C+'steering/collective_motion.py'], [('set_neighbor/find_nearest_neighbors', C+'steering/collective_motion.py')])
prop('C33', 'Agent objects and array records agree',
 'The record layout of an agent type has exactly one field per declared attribute of its class hierarchy apart from the body-type bookkeeping, in declaration order by class and with the matching number type and shape. Converting an agent to a record and back reproduces every attribute, and the attribute-to-option and attribute-to-type mappings cover the kinds they list.',
 ['inputs', 'programs'], 'all agent classes and attribute values', 'The trait tests need hypothesis; none checks the round trip.',
 ['crowddynamics/traits.py', S+'agents.py'], [('trait_to_dtype/class_traits/class_to_struct_dtype', 'crowddynamics/traits.py'), ('AgentType.__array__/from_array', S+'agents.py')])
prop('C34', 'Density grids count every agent in its own cell',
 'The classical density grid holds for every cell the number of agents in it divided by the cell area, over the smallest grid of cells covering all agents, so that the grid total times the cell area is the number of agents. The Voronoi based variant divides the number of agents of a cell by the sum of the Voronoi areas of exactly those agents.',
 ['inputs'], 'all point sets of any size and cell sizes > 0', 'The tests only call the functions.',
 [C+'quantities.py'], [('density_classical', C+'quantities.py'), ('_core_2', C+'quantities.py')])
prop('C35', 'Update clocks fire inside the time window in order',
 'The random clock yields inside the time window (not before its start, strictly before its end), in non-decreasing order, and yields every firing time before the window ends. The update order of several players lists exactly one entry per firing of a player in order of the firing times.',
 ['inputs', 'histories'], 'all intervals, windows, players and random streams', 'The test checks the bound on sampled streams and is not runnable here.',
 [C+'rand.py'], [('poisson_clock/poisson_timings', C+'rand.py')])
prop('C36', 'Invalid configuration is rejected',
 'Loading a configuration file with a specification either returns a configuration in which every value satisfies the specification or fails with a validation error; the working directory is restored whatever happens inside a temporary directory change, and a deprecated function still runs and returns its result after warning.',
 ['inputs', 'configurations', 'fault_sequences'], 'all configuration files and all functions and errors', 'No test loads an invalid configuration.',
 ['crowddynamics/config.py', 'crowddynamics/utils.py', 'crowddynamics/exceptions.py'], [('load_config', 'crowddynamics/config.py'), ('remember_cwd', 'crowddynamics/utils.py'), ('deprecated', 'crowddynamics/exceptions.py')])
prop('C37', 'Followers follow the closest suitable leader and keep following',
 'Each follower takes the closest leader in sight range that is visible and heads away, remembers it, drops its own target and moves by the normalised weighted average of the direction to the leader and of the leader\'s heading; when the leader it remembered is hidden behind a wall, or it finds no suitable one but remembers a leader, it takes that leader\'s target. Followers without any strategy (leaders or, when herding, moving neighbours in sight) use their familiar exit, and agents that are not followers keep target and remembered leader.',
 ['inputs', 'histories'], 'all crowds, walls and leader assignments', 'No test covers it.',
 [C+'steering/collective_motion.py'], [('leader_follower_interaction_brute/leader_follower_interaction/leader_follower_with_herding_interaction', C+'steering/collective_motion.py'), ('LeaderFollower/LeaderFollowerWithHerding', S+'logic.py')])
prop('C38', 'Geometries are turned into exactly their boundary segments',
 'Converting a geometry to wall segments yields exactly the consecutive vertex pairs of its lines and polygon shells, part by part in order, nothing for points or for an absent geometry, and fails with a type error for anything else.',
 ['inputs'], 'all geometries, nested multi-part ones included', 'Tests check only types of the result.',
 [C+'geometry.py'], [('geom_to_linesegment/geom_to_linear_obstacles', C+'geometry.py')])
prop('C39', 'Random samples stay inside the sampled shape',
 'A sample drawn from a segment or a triangle is the stated combination of its end points or corners and therefore lies in it for every value of the random numbers. A sample of a polyline or polygon comes from the piece selected by its length or area weight.',
 ['inputs', 'histories'], 'all segments, triangles, and all values of the random stream', 'Tests sample a few points and check one containment.',
 [C+'sampling.py'], [('random_sample_line/random_sample_triangle', C+'sampling.py'), ('linestring_sample/polygon_sample', C+'sampling.py')])
prop('C40', 'Distance maps solve the travel-time equation',
 'The distance map is the shortest-path distance to the target around obstacles and the direction map its normalised negative gradient.',
 ['inputs'], 'all domains, targets and obstacles', 'Needs external solvers; the test only runs it.',
 [C+'steering/quickest_path.py'], [('distance_map/direction_map', C+'steering/quickest_path.py')])
prop('C41', 'The target node counts the agents that reached a target',
 'After every update the count recorded for a polygon target is the number of agents that have been inside it at this or any earlier update, counting each agent once; the agents are not changed.',
 ['inputs', 'histories'], 'all crowds, targets and histories of updates', 'No runnable test covers the logic nodes.',
 [S+'logic.py'], [('TargetReached', S+'logic.py')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
