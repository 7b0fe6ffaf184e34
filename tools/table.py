"""The properties: one entry each."""
IN, HI, CF, PR, SC, FA = 'inputs', 'histories', 'configurations', 'programs', 'schedules', 'fault_sequences'
C = 'crowddynamics/'
V2, DI, IN_, MO, ST = C + 'core/vector2D.py', C + 'core/distance.py', C + 'core/integrator.py', C + 'core/motion/', C + 'core/steering/'
AG, FI, LO, MU, BA = C + 'simulation/agents.py', C + 'simulation/field.py', C + 'simulation/logic.py', C + 'simulation/multiagent.py', C + 'simulation/base.py'
IA, IO = C + 'core/interactions.py', C + 'io.py'

PROPERTIES = []


def P(id, title, statement, over, all, why, files, mech, state=(), **kw):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, over=over, all=all, why=why, files=files, mech=mech, state=list(state), **kw))


P('C01', 'Neighbour lookups on the block list find exactly the items of nearby cells',
  'An item stored at a point is returned by a lookup at a point exactly when their grid cells differ by at most the lookup radius in every dimension, each stored item once. '
  'Reading a cell returns the items stored in that cell in insertion order, lookups never change what is stored, and points that cannot be placed on the grid are refused with a key error.',
  [IN, HI], 'all points (negative and boundary coordinates included), cell sizes, radii and sequences of insertions and lookups',
  'The tests insert random points and look at types and a few keys; cell boundaries, negative coordinates, other radii and the independence of lookups from history are not covered.',
  [C + 'core/block_list.py'], [('cell of a point', 'MutableBlockList._transform'), ('cells around a cell', 'MutableBlockList._nearest_blocks'), ('lookup', 'MutableBlockList.nearest')],
  [('blocks', 'items stored per grid cell', C + 'core/block_list.py')])

P('C02', 'Recorded arrays are written completely, once and in order',
  'Every array sent to the binary recorder is written exactly once, with the contents it had when it was sent and in sending order, to consecutively numbered files. '
  'A file is written exactly when the caller asks for it and holds all arrays sent since the previous file.',
  [IN, HI], 'all sequences of arrays and write requests, including arrays the caller changes after sending them',
  'The existing test sends distinct arrays and writes after each pair; caller-side mutation between sending and writing (what a running simulation does) and other patterns of write requests are not exercised.',
  [IO], [('buffer and numbered write', 'save_npy'), ('caller reuses its array', 'SaveSimulationData.update in simulation/logic.py')],
  [('buffer', 'arrays sent and not yet written', IO)])

P('C03', 'Loading recorded arrays returns exactly the recording, in order',
  'Loading a recording by name yields the arrays of exactly the files written under that name, ordered by their number (10 after 9). '
  'Files of other recordings in the same directory, even with a common name prefix, are never included.',
  [IN, CF], 'all directory contents, base names and numbers of files',
  'Tests use one recording with fewer than ten files in an empty directory.',
  [IO], [('finding the files', 'find_npy_files'), ('order', 'load_npy'), ('stacking', 'load_npy_concatenated')])

P('C04', 'Recorded table has one header and every row once, in order',
  'The text recorder writes one header line followed by exactly one row per record sent, in order; rows are written only when the caller asks for it and each is written once. '
  'Rows not yet written are kept for the next write.',
  [IN, HI], 'all sequences of records and write requests',
  'The test writes after every record; any other history of write requests is untested.',
  [IO], [('buffered writer', 'save_csv')], [('buffer', 'text not yet written', IO)])

P('C05', 'Geometries survive saving and loading',
  'Saving named geometries and loading the file gives back equal geometries under the same names, for single and multi-part geometries, collections and mappings of geometries and missing ones. '
  'Saving again replaces the earlier content, so that the file always holds one valid document.',
  [IN, HI], 'all geometry values and repeated saves to one file',
  'No stable test saves a geometry.',
  [IO], [('conversion', 'geometry_mapping, geometry_shape'), ('files', 'save_geometry_json, load_geometry_json')])

P('C06', 'A simulation runs until its exit condition holds and no further',
  'Running a simulation asks the exit condition before every update and stops as soon as it is true, without another update; without a condition it never stops by itself. '
  'A new simulation carries its name and creation time in its metadata, and an unnamed one is called after its class.',
  [HI, CF], 'all exit conditions and update sequences',
  'The tests only construct simulations; the loop itself is not run with conditions that change.',
  [BA], [('loop', 'SimulationBase.run'), ('metadata', 'SimulationBase.__init__'), ('names', 'CrowdDynamicsObject')])

P('C07', 'The logic tree keeps its shape under insertion and lookup',
  'Inserting a node before another makes it take over that place with the old node as child, inserting after makes it the only child that inherits all former children; adding children keeps existing ones. '
  'Looking a node up by name searches the whole tree from any node and fails with a key error for unknown names.',
  [PR, HI], 'all trees and sequences of insertions',
  'Tests build two or three nodes; positions of other children and lookups from inner nodes are sampled at most.',
  [BA], [('tree edits', 'LogicNodeBase.inject_before, inject_after, add_children, __lshift__'), ('lookup', 'LogicNodeBase.__getitem__')])

P('C08', 'One update runs every node of the logic tree once, children before parents',
  'A simulation update calls every node of its logic tree exactly once, with children before their parents, and then increases the iteration count by one.',
  [PR], 'all logic trees',
  'No stable test updates a simulation with a tree of several nodes.',
  [MU], [('traversal', 'MultiAgentSimulation.update')], [('iterations', 'number of finished updates', MU)])

P('C09', 'A simulation process always ends its output with the end marker',
  'A worker process runs its simulation until it is told to stop, and its last message is the end marker, also when the simulation fails. '
  'A simulation error is logged and stops the process, and a stop request takes effect at the next check of the exit condition.',
  [SC, FA], 'all points in time of the stop request and all failures of the simulation',
  'Process behaviour on errors is not tested.',
  [MU], [('process body', 'MultiAgentProcess.run'), ('stop event', 'MultiAgentProcess.stop'), ('exit condition', 'SimulationBase.run')],
  [('exit', 'event set by a stop request or an error', MU)])

P('C10', 'The saving node records every cycle and writes when its condition holds',
  'In every cycle the saving node records the agents and the simulation data once each, asks its save condition once, and writes both recordings exactly when the condition holds. '
  'It records agents after forces are reset for the cycle, and stores below its base directory under a name derived from the simulation.',
  [HI, CF], 'all save conditions and update sequences',
  'Not covered by stable tests; agreement between both recordings needs a history of several cycles.',
  [LO], [('recording', 'SaveSimulationData.update'), ('position in the tree', 'SaveSimulationData.add_to_simulation_logic')])

P('C11', 'Planar vector operations follow their algebraic definitions',
  'Rotations by a quarter turn, length, angle, dot and cross product, normalisation, unit vectors and weighted averages equal their mathematical definition for every vector, and row-wise for arrays of vectors. '
  'Normalising the zero vector returns it, truncation shortens only vectors longer than the limit and keeps their direction, and no operation but truncation changes its argument.',
  [IN], 'all real vectors, zero and axis-aligned ones included',
  'The tests cannot run in this environment and otherwise sample floats; special values and aliasing are hit by chance.',
  [V2], [('operations', 'rotate90, rotate270, angle, length, dot, cross, normalize, truncate, unit_vector, weighted_average')])

P('C12', 'Angles are reduced into one turn without changing direction',
  'Reducing an angle returns a value in [-pi, pi] that differs from the input by a whole number of turns.',
  [IN], 'all real angles, whole and half multiples of a turn included',
  'Sampled tests practically never hit the half-turn boundaries.',
  [V2], [('reduction', 'wrap_to_pi')])

P('C13', 'Distances between discs and walls are true skin-to-skin distances',
  'The distance of two discs is the distance of their centres minus both radii, and that of a disc and a wall is the distance from its centre to the nearest point of the wall segment, end points included, minus the radius. '
  'The returned normal is the unit vector from the other body to the first disc, or zero when there is no direction.',
  [IN], 'all positions and radii, including walls of zero length and centres on the wall or beyond its ends',
  'Tests check shapes and finiteness of sampled results, not their geometric meaning.',
  [DI], [('disc-disc', 'distance_circles'), ('disc-wall', 'distance_circle_line')])

P('C14', 'Distances between three-circle bodies are attained by their closest parts',
  'The distance of two three-circle bodies, or of one and a wall, is the smallest over all pairs of their parts, with the normal of that pair. '
  'The returned moment arms lead from each body\'s own centre along the normal to the surface of its own part of that pair, as documented: x0 + r0 n and x1 - r1 n for two bodies, x - r n at a wall.',
  [IN], 'all postures of two bodies and all walls',
  'Tests do not compare with the pairwise minimum, and no test looks at the arms.',
  [DI], [('body-body', 'distance_three_circles'), ('body-wall', 'distance_three_circle_line')])

P('C15', 'Interacting agents push each other with opposite forces',
  'The forces that two agents with equal material constants exert on each other cancel, for contact and anticipatory forces and for both body shapes, and exchanging the two agents exchanges their forces.',
  [IN], 'all pairs of states with equal interaction constants',
  'Conservation must hold for every relative position and velocity; tests check that values are finite.',
  [IA, MO + 'power_law.py', MO + 'contact.py', DI], [('pair interaction', 'interaction_agent_agent_circular, interaction_agent_agent_three_circle'), ('anticipatory force', 'force_social_circular, force_social_three_circle')])

P('C16', 'Contact forces and torques act exactly on contact, with the right sign',
  'Overlapping bodies, or a body overlapping a wall, receive a repulsion proportional to the overlap, friction opposing the sliding and damping of the normal velocity; without overlap there is no contact force. '
  'Three-circle bodies receive the torque of the force about their centre, and no agent or quantity not involved in the contact changes.',
  [IN], 'all states of two agents, or of an agent and a wall',
  'Stable tests never run the interactions; sampled ones rarely produce overlaps of specific parts.',
  [IA, MO + 'contact.py'], [('contact law', 'force_contact'), ('pairs', 'interaction_agent_agent_circular, interaction_agent_agent_three_circle'), ('walls', 'interaction_agent_circular_obstacle, interaction_agent_three_circle_obstacle')],
  [('force, torque', 'what an agent collected in this cycle', AG)])

P('C17', 'Anticipatory force follows the first future collision',
  'Two agents that would touch within thirty seconds at their current velocities are pushed along the negative gradient of the interaction energy of the time to their first contact, at most 2 kN each; agents that will never touch, or no longer, receive none. '
  'For three-circle bodies the pair of parts that touches first decides.',
  [IN], 'all relative positions and velocities, with past, future and no contact, and parts whose contact times interleave',
  'A gradient, a first root and a minimum over nine pairs cannot be settled with sampled finiteness checks.',
  [MO + 'power_law.py'], [('time to collision', 'time_to_collision_circle_circle'), ('gradient', 'gradient_circle_circle, gradient_three_circle'), ('force', 'force_social_circular, force_social_three_circle')])

P('C18', 'Agents accelerate towards their target velocity and orientation',
  'The adjusting force is mass times missing velocity over the relaxation time, and the adjusting torque drives the shortest turn to the target orientation; every agent receives exactly its own. '
  'Only bodies with an orientation are turned, towards the direction they want to go.',
  [IN], 'all agents, with orientations on either side of the half-turn',
  'Not run by stable tests; the shortest-turn rule matters only around the half-turn.',
  [MO + 'adjusting.py', ST + 'orientation.py', LO], [('force and torque', 'force_adjust, torque_adjust, force_adjust_agents, torque_adjust_agents'), ('target orientation', 'orient_towards_target_direction')])

P('C19', 'Fluctuation forces are bounded, truncated-normal and mass-proportional',
  'The random force of an agent is its mass times a magnitude between zero and three of its own standard deviations in a uniformly random direction, the random torque its inertia times a value within three standard deviations. '
  'Bounded normal values never leave the stated interval around their mean.',
  [IN], 'all masses, inertias and deviations; all random draws',
  'A bound on every draw cannot be established by drawing.',
  [MO + 'fluctuation.py', C + 'core/rand.py'], [('force and torque', 'force_fluctuation, torque_fluctuation'), ('bounded normal', 'truncnorm')])

P('C20', 'Time stepping integrates the equations of motion consistently',
  'One step changes position and velocity of every agent by the stated second-order scheme from its own force over mass, orientation and angular velocity likewise from torque over inertia, and remembers the force for the next step. '
  'The same step is applied to all agents, is published and is added to the total time.',
  [IN, HI], 'all agent arrays, sizes (zero included) and bounds of the step',
  'Not run by stable tests; a wrong coefficient or stale quantity leaves plausible trajectories.',
  [IN_, LO], [('schemes', 'translational_euler, rotational_euler, translational_verlet, rotational_verlet'), ('step', 'velocity_verlet_integrator, euler_integrator'), ('clock', 'Integrator.update')],
  [('force_prev, torque_prev', 'force and torque of the previous step', AG), ('dt, time_tot', 'last step and elapsed time', LO)])

P('C21', 'The adaptive time step stays within its bounds and shrinks with speed',
  'The time step is the largest allowed one when nobody moves and otherwise inversely proportional to the largest speed, never outside the given bounds.',
  [IN], 'all speeds (none, tiny, huge) and bounds',
  'Bounds must hold for every state; not run by stable tests.',
  [IN_], [('step choice', 'adaptive_timestep')])

P('C22', 'Shoulders stay attached to the torso',
  'After every step, and after placement, the shoulders of a three-circle agent lie at the shoulder distance on either side of the torso, perpendicular to its orientation, and the orientation stays within a half-turn of zero.',
  [IN, HI], 'all agents, orientations and sequences of steps and placement attempts',
  'The relation must hold after every history; stable tests do not move three-circle agents.',
  [AG, IN_], [('shoulder positions', 'shoulders'), ('after a step', 'velocity_verlet_integrator, euler_integrator')],
  [('position_ls, position_rs', 'positions of the shoulders', AG)])

P('C23', 'Forces are only accumulated, after one reset per cycle',
  'The reset clears the collected force (and torque) of every agent and nothing else, and every source of force adds its contribution independently of what has been collected before. '
  'Force computations change no other quantity of an agent.',
  [IN, HI], 'all agent states and orders of force sources',
  'A source that overwrites instead of adding is invisible as long as it comes first.',
  [LO, IA, MO + 'adjusting.py'], [('reset', 'Reset.update'), ('accumulation', 'interactions, force_adjust_agents, Fluctuation.update')],
  [('force, torque', 'collected in the current cycle', AG)])

P('C24', 'Every pair in sight interacts once, with the law of its body shape',
  'In a cycle every pair of agents within sight interacts exactly once and every agent meets every wall segment exactly once, using the interaction of the agents\' own body shape; arrays of other kinds are refused. '
  'A field without obstacles contributes no wall.',
  [IN, CF], 'all agent arrays, obstacle sets (none included) and sight ranges',
  'A missing or repeated pair needs particular cell positions; not run by stable tests.',
  [IA, LO], [('pairs', 'agent_agent_block_list'), ('walls', 'agent_obstacle'), ('cell size', 'AgentAgentInteractions._default_cell_size')])

CO, SA, GE, QU, TR, CL, UT = C + 'core/steering/collective_motion.py', C + 'core/sampling.py', C + 'core/geometry.py', C + 'core/quantities.py', C + 'traits.py', C + 'cli.py', C + 'utils.py'
QP, OH, NA, RA, EV, G2 = ST + 'quickest_path.py', ST + 'obstacle_handling.py', ST + 'navigation.py', C + 'core/rand.py', C + 'core/evacuation.py', C + 'core/geom2D.py'

P('C25', 'Agents convert to array rows and back without loss',
  'The row of an agent has exactly one field per trait of its type (those describing the body type apart) and holds the value of each; setting an agent from a row sets every field. '
  'Arrays are attributed to the model whose row type they have.',
  [IN, PR], 'all agent types and attribute values',
  'Stable tests do not build agents.',
  [AG, TR], [('row', 'AgentType.__array__'), ('back', 'AgentType.from_array'), ('fields', 'AgentType.dtype, class_to_struct_dtype')])

P('C26', 'Body values follow the body type and stay consistent',
  'Setting a body type sets all of its values, once; radius, mass and target velocity are drawn within the given scale around the given mean when not set. '
  'The radii of torso and shoulders and the shoulder distance are their ratios of the radius and the rotational moment follows mass and radius, in whatever order these become known.',
  [IN, HI], 'all body values and orders of setting them',
  'The order of notifications matters; stable tests do not set body types.',
  [AG, RA, C + 'conf/body_types.cfg'], [('observers', 'BodyType._observe_*'), ('draws', 'BodyType._truncnorm, truncnorm')],
  [('r_t, r_s, r_ts, inertia_rot', 'derived values', AG)])

P('C27', 'Placed agents overlap neither each other nor walls',
  'An agent is placed only where it overlaps no agent placed before and, when walls are given, no wall; whoever is not placed leaves no row. '
  'Every placed agent is found by the overlap tests of later ones, and placing gives up after ten failures per agent.',
  [IN, HI, CF], 'all groups, position generators, walls and earlier placements',
  'A missed overlap needs particular positions (cell borders, walls); stable tests do not place agents.',
  [AG, C + 'core/block_list.py', DI], [('placement', 'Agents.add_non_overlapping_group'), ('overlap tests', 'overlapping_*'), ('neighbour cells', 'Agents.cell_size, MutableBlockList.nearest')],
  [('array, index', 'rows of placed agents', AG)])

P('C28', 'A complete group has one member per set of attributes, drawn once',
  'As soon as size, type and attributes of a group are known it has its members: one per element of a collection, or as many as its size drawn from a generator or a function. '
  'Each set of attributes is drawn exactly once however the group is configured.',
  [IN, HI], 'all kinds of attributes and orders of configuration',
  'Notification order decides how often attributes are drawn; not covered by stable tests.',
  [AG], [('members', 'AgentGroup._observe_members')], [('members', 'agents of the group', AG)])

P('C29', 'Geometries convert completely to walls, points and grid cells',
  'Every edge of every part of a geometry (holes included) becomes exactly one wall segment in order, points become none, and other objects are refused; points of all parts are listed in order. '
  'Drawing a geometry marks the cells of its interior or border on the grid and no others.',
  [IN], 'all geometries, nested collections, empty and missing ones included',
  'Tests of geometry are not runnable without the geometry library; multi-part geometries and holes are rarely sampled.',
  [GE], [('segments', 'geom_to_linesegment, geom_to_linear_obstacles'), ('points', 'geom_to_array'), ('raster', 'draw_geom')])

P('C30', 'Sampled points lie on the sampled shape, weighted by length or area',
  'Samples of a line string lie on its segments, chosen in proportion to their lengths; samples of a polygon lie inside triangles of it, chosen in proportion to their areas. '
  'Points within a segment or triangle are drawn uniformly.',
  [IN], 'all shapes and random draws',
  'Membership must hold for every draw; stable tests do not sample.',
  [SA], [('line', 'linestring_sample, random_sample_line'), ('polygon', 'polygon_sample, random_sample_triangle')])

P('C31', 'Distance and direction maps lead to the target around obstacles',
  'The grid covers the bounds with the given step and every point of the domain maps to the grid cell it lies in; distances start at the targets and never pass obstacles, also when there are none. '
  'Directions follow the falling distance, with unit length, and missing ones are filled from the nearest known cell; obstacle maps lead away from the nearest obstacle.',
  [IN, CF], 'all domains, targets, obstacles and step sizes',
  'Not runnable in stable tests; correctness for all geometries cannot be sampled.',
  [QP, OH], [('grid', 'meshgrid'), ('distance', 'distance_map, shortest_path'), ('direction', 'direction_map, fill_missing, direction_map_obstacles')])

P('C32', 'Maps of a field always belong to its current geometry',
  'The maps a field hands out are those of its current domain, obstacles and targets, for the asked target and parameters; changing the geometry drops maps made before. '
  'Invalid or empty domains and obstacles are refused, and fields without obstacles can be used everywhere.',
  [HI, CF], 'all sequences of changes and requests',
  'Cached results only go stale in particular histories.',
  [FI], [('caches', 'Field.meshgrid, shortest_path_target, direction_map_obstacles, navigation_to_target'), ('invalidation', 'Field._observe_geometry'), ('validation', 'Field._valid_domain, _valid_obstacles')],
  [('cached maps', 'results per field and parameters', FI)])

P('C33', 'Navigation gives agents the mapped direction and leaves others alone',
  'Every agent with a target gets the direction of that target\'s map at its cell; outside the map it keeps its direction, and agents without target are not touched. '
  'Near obstacles the direction turns away from them, the more the closer, stays normalised, and the maps it is made of stay as they are.',
  [IN], 'all agent positions (outside the map included), maps, radii and strengths',
  'Border cells and positions outside the map are not sampled by stable tests.',
  [NA, OH, LO], [('lookup', 'getdefault'), ('turning', 'obstacle_handling'), ('node', 'Navigation.update')])

P('C34', 'Sight is blocked exactly by walls between two points',
  'Two non-parallel segments intersect exactly when they share a point, end points included. '
  'A wall is between two points exactly when some wall segment intersects the segment joining them.',
  [IN], 'all points and walls',
  'Touching end points and parallel lines are measure-zero inputs random tests never draw.',
  [G2, C + 'core/sensory_region.py'], [('intersection', 'line_intersect'), ('walls', 'is_obstacle_between_points')])

P('C35', 'Followers head for the nearest exit they can see',
  'A follower that sees exits within the detection range, with no wall in between, takes the nearest of them as its target and stops following. '
  'Nobody else changes.',
  [IN], 'all agents, exits, walls and ranges',
  'Not covered by stable tests.',
  [EV, LO], [('detection', 'exit_detection'), ('node', 'ExitDetection.update')])

P('C36', 'Followers follow visible leaders and neighbours that do not come towards them',
  'A follower takes the nearest leader in sight who is not hidden by a wall and does not come towards it; when its leader is lost from sight it takes over that leader\'s target, and without any it heads for its familiar exit. '
  'Herding agents turn towards the mean position and direction of their nearest visible neighbours, never more than asked for; agents that do not follow keep their direction.',
  [IN, HI], 'all agents, walls and earlier choices of leaders',
  'Not covered by stable tests; ties, head-on encounters and hidden leaders need particular states.',
  [CO, LO], [('relation', 'herding_relationship'), ('neighbours', 'find_nearest_neighbors, set_neighbor'), ('herding', 'herding_interaction'), ('leaders', 'leader_follower_interaction_brute'), ('nodes', 'LeaderFollower.update, LeaderFollowerWithHerding.update')],
  [('index_leader, target', 'whom an agent follows and where it heads', AG)])

P('C37', 'Exit capacity and queue ranks follow their definitions',
  'The capacity of a narrow exit is the number of agents that fit side by side, over layers when given, and never increases with agent size. '
  'Ranks of agents by distance to an exit are a permutation: everyone is ranked by how many are closer.',
  [IN], 'all door widths, agent radii and positions',
  'Not covered by stable tests.',
  [EV], [('capacity', 'narrow_exit_capacity'), ('rank', 'agent_closer_to_exit')])

P('C38', 'Densities count every point once in its own cell',
  'The classical density counts every point exactly once in the grid cell it lies in, over grids that hold all points, negative coordinates included. '
  'Voronoi densities spread every point over its own region or divide by the areas of the regions of the points in a cell; areas of polygons do not depend on the first vertex.',
  [IN], 'all point sets and cell sizes',
  'Negative coordinates and points on cell borders are not sampled; not runnable in stable tests.',
  [QU, G2], [('classical', 'density_classical'), ('voronoi', 'density_voronoi_1, density_voronoi_2, voronoi_finite_polygons_2d'), ('area', 'polygon_area')])

P('C39', 'Poisson timings list every update of every player in time order',
  'Update times of one player are sums of independent exponential waits below the time step; all updates of all players are listed in the order of their times, each exactly once. '
  'The array of players is left as it was.',
  [IN], 'all players, intervals, time steps and random draws',
  'Order and completeness must hold for every draw.',
  [RA], [('one clock', 'poisson_clock'), ('all players', 'poisson_timings')])

P('C40', 'Traits map to fields, types and options of the same kind',
  'Every supported kind of trait becomes the field type, the python type and the command line option of its kind, with its name, default and limits; all others are refused with the documented errors. '
  'Traits of a class are listed once each in the order of inheritance and definition, and shape and length validators accept exactly the allowed arrays.',
  [PR, IN], 'all classes with traits, including private and excluded ones',
  'Tests of traits are not among the stable ones; each kind of trait is a separate case.',
  [TR], [('field types', 'trait_to_dtype'), ('types', 'trait_to_type'), ('options', 'trait_to_option'), ('order', 'class_traits, class_own_traits'), ('validators', 'shape_validator, length_validator')])

P('C41', 'Every simulation of a directory has its own command',
  'All simulations in the python files of a directory are found and each gets a command that sets up that simulation with the given options and runs it as often as asked. '
  'The chosen log level is applied, and joining a recording writes exactly its arrays.',
  [CF, IN], 'all directories, simulations, options and log levels',
  'The command line is not covered by stable tests.',
  [CL, C + 'logging.py'], [('finding', 'import_simulations'), ('commands', 'simulation_commands, simulation_callback'), ('level', 'run, setup_logging')])

P('C42', 'Configurations, signatures and imports are checked and clean up',
  'A configuration that violates its specification is refused; every parameter of a signature is listed with default and annotation, and one without default is refused. '
  'The working directory is restored however the code inside ends, imports find exactly the proper subclasses of a module, and deprecated functions warn and still work.',
  [IN, FA], 'all configurations, signatures, modules and failures',
  'Not covered by stable tests.',
  [UT, C + 'config.py', C + 'exceptions.py'], [('configuration', 'load_config'), ('signatures', 'parse_signature, mkspec'), ('directory', 'remember_cwd'), ('imports', 'import_subclasses'), ('warnings', 'deprecated')])

P('C43', 'Active and arrived agents are counted correctly',
  'After every update exactly the agents inside the domain are active, and the number of the others is recorded. '
  'An agent that was once inside a target counts as having reached it ever after, once, per target.',
  [IN, HI], 'all positions and histories of movement',
  'Counts depend on the history of positions; not covered by stable tests.',
  [LO], [('domain', 'InsideDomain.update'), ('targets', 'TargetReached.update')],
  [('active', 'agent is inside the domain', AG), ('reached_by', 'who was inside a target', LO)])
EX = C + 'examples/'
P('C44', 'Shipped simulations run the steps of a cycle in a workable order',
  'One cycle of every simulation the package ships resets the forces once and integrates once, and every force and torque accumulated in a cycle is integrated before it is reset. '
  'Leaders and targets are chosen before targets are navigated to, directions are decided before agents turn and accelerate towards them, and agents interact with the obstacles of their field.',
  [PR, CF], 'all shipped simulations and all their options',
  'A tree whose steps run in another order still runs: a test that drives a simulation for some cycles sees agents move, not that forces are lost or a cycle late.',
  [EX + 'simulations.py', EX + 'collective_motion.py', EX + 'validation.py', BA, MU, LO], [('trees', '_default_logic'), ('insertion', 'LogicNodeBase.__lshift__'), ('cycle', 'MultiAgentSimulation.update')],
  [('logic', 'tree of the steps', MU)])
P('C45', 'Shipped fields have their documented geometry at every size',
  'For every width, height and other option the walls, targets, spawns and domain of each shipped field are those of its layout: exits are exactly the gaps of the walls, spawns and obstacles lie in the domain. '
  'A field that is resized equals a new field of that size.',
  [IN, HI], 'all sizes, ratios and exit widths, and resizing',
  'Fields are built by arithmetic on their options; no stable test builds one.',
  [EX + 'fields.py', FI], [('layouts', 'Field.__init__ of each field'), ('resizing', '_observe_field')],
  [('geometry', 'domain, obstacles, targets and spawns', FI)])
P('C46', 'Shipped simulations are populated as their options say',
  'Every shipped simulation has a field of the size and openings it was given and the number of agents it was given, in groups that start in their own spawn. '
  'A member is a leader or a follower and not both, leaders head for a target their field has, followers for none, and targets, orientations and familiar exits are drawn anew for every member; '
  'a member starts facing and moving in the direction it heads for.',
  [IN, CF], 'all sizes, options and draws',
  'Populations are random and built from options; no stable test builds one.',
  [EX + 'simulations.py', EX + 'collective_motion.py', EX + 'validation.py'], [('members', 'attributes'), ('groups', '_default_agents'), ('fields', '_default_field')],
  [('agents', 'rows of the agents', AG)])
P('C47', 'Attributes take exactly the values of their declared range and shape',
  'Radii, masses, speeds, time constants, force constants and step sizes that are negative are refused, ratios and strengths beyond one, orientations beyond half a turn and targets below "no target" too; '
  'positions, velocities, forces and directions have two components and target directions length zero or one. Every value within its range is taken as it is, and every default lies within its range.',
  [IN, CF], 'all attributes of agents and logic nodes and all values',
  'Tests try the validators on one value; which attribute carries which bound is only seen when a bad value is assigned.',
  [AG, LO, C + 'traits.py'], [('bounds', 'declarations of Body, BodyType, TranslationalMotion, RotationalMotion, States'), ('shapes and lengths', 'shape_validator, length_validator')])
P('C48', 'Body types describe possible bodies that every cell size covers',
  'Every configured body type gives every body value within its range; its three circles are one connected body whose shoulders reach exactly the radius, and radius, mass and speed are positive for every draw. '
  'The specification of body types allows exactly what the attributes take, the cells used to find overlapping and interacting agents are large enough for the largest body, and simulations offer only configured body types.',
  [CF, IN], 'all body types and all draws of their values',
  'A wrong value in the configuration only shows in simulated bodies; stable tests do not read it.',
  [C + 'conf/body_types.cfg', C + 'conf/body_types_spec.cfg', AG, LO], [('configuration', 'BODY_TYPES_CFG, BODY_TYPES_CFG_SPEC'), ('cell sizes', 'AgentAgentInteractions.max_agent_radius, Agents.cell_size')])
P('C49', 'Agents pass through neither each other nor walls during a run',
  'For suitable parameters, agents that start without overlap never pass through walls or through one another for the whole of a simulation.',
  [IN, HI], 'all populations, fields and numbers of steps',
  'Runs of a few steps show nothing about all runs.',
  [LO, C + 'core/integrator.py', C + 'core/interactions.py'], [('trajectory', 'Integrator.update, AgentAgentInteractions.update, AgentObstacleInteractions.update')])
PROPERTIES[-1]['na'] = ('a statement about the numerical solution of the equations of motion: whether soft contact forces and a finite time step keep bodies apart depends on '
                        'speeds, stiffnesses and step sizes along the whole trajectory, which no sound static bound in reach covers; its one-step ingredients are C13 to C24')
P('C50', 'Agents that can reach their target arrive there',
  'In a field whose targets are reachable, every agent with a target and time enough arrives at it.',
  [IN, HI], 'all reachable targets, fields and populations',
  'A test follows single agents in single fields.',
  [C + 'core/steering/navigation.py', LO], [('trajectory', 'Navigation.update, Integrator.update, TargetReached.update')])
PROPERTIES[-1]['na'] = ('liveness of a chaotic many-body system with random forces (crowds do jam at exits); neither a ranking argument nor a bound can be read off the source; '
                        'that single directions lead towards the target is C31 and C33')
P('C51', 'Drawn positions, bodies and forces follow their named distributions',
  'Over many draws, sampled points are uniform on their shape, body values and fluctuation forces have the stated mean, spread and truncation, and Poisson timings the stated rate.',
  [IN], 'all seeds and sample sizes',
  'Stable tests draw nothing.',
  [C + 'core/sampling.py', C + 'core/motion/fluctuation.py', AG], [('draws', 'calls of numpy.random and scipy.stats')])
PROPERTIES[-1]['na'] = ('a statistical statement about numpy.random, scipy.stats and rejection sampling at run time; statically only the transformation from draws to '
                        'values can be decided, which is claimed in C19, C26, C30 and C39')
P('C52', 'Compiled functions compute what their Python source says',
  'Every function compiled by numba with fast-math, fixed signatures and no bounds checks returns what its source returns in exact arithmetic, up to rounding.',
  [IN], 'all inputs of the compiled functions',
  'Numba is absent here, and rounding errors depend on every value.',
  [C + 'core/'], [('compilation', 'numba.jit decorators')])
PROPERTIES[-1]['na'] = ('rounding, fast-math reassociation and machine code are produced outside the repository by a compiler that is not even installed; the analysis treats '
                        'numbers as reals (the branch cuts where rounding would matter most are compared exactly instead)')
