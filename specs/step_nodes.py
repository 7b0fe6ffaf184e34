"""What each node of the logic tree does to the simulation."""
import numpy as np
from crowddynamics.simulation.agents import agent_type_three_circle, agent_type_circular
import cell_lists
from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.core.integrator import velocity_verlet_integrator
from crowddynamics.core.motion.fluctuation import force_fluctuation, torque_fluctuation
from crowddynamics.core.motion.adjusting import force_adjust_agents, torque_adjust_agents
from crowddynamics.core.interactions import agent_agent_block_list, agent_obstacle, interaction_agent_circular_obstacle, \
    interaction_agent_three_circle_obstacle, interaction_agent_agent_circular, interaction_agent_agent_three_circle
from crowddynamics.core.geometry import geom_to_linear_obstacles
from crowddynamics.core.steering.orientation import orient_towards_target_direction
from crowddynamics.core.rand import truncnorm
from crowddynamics.exceptions import InvalidType


@ref('C23', 'crowddynamics.simulation.logic.Reset.update', attrs={'array': 'recs:agents'}, again='simulation.field.obstacles simulation.agents.array')
def reset(self: 'obj:crowddynamics.simulation.logic.Reset'):
    """the collected force of every agent becomes zero, and the torque of three-circle agents; nothing else changes"""
    agents = self.simulation.agents.array
    agents['force'] = 0
    if agents.dtype == agent_type_three_circle:
        agents['torque'] = 0


@ref('C19 C23', 'crowddynamics.simulation.logic.Fluctuation.update', attrs={'array': 'recs:agents'}, again='simulation.field.obstacles simulation.agents.array')
def fluctuate(self: 'obj:crowddynamics.simulation.logic.Fluctuation'):
    """the fluctuation force is added to the collected one, and the torque for three-circle agents"""
    agents = self.simulation.agents.array
    agents['force'] = agents['force'] + force_fluctuation(agents['mass'], agents['std_rand_force'])
    if agents.dtype == agent_type_three_circle:
        agents['torque'] = agents['torque'] + torque_fluctuation(agents['inertia_rot'], agents['std_rand_torque'])


@ref('C18 C23', 'crowddynamics.simulation.logic.Adjusting.update', attrs={'array': 'recs:agents'}, again='simulation.field.obstacles simulation.agents.array')
def adjust(self: 'obj:crowddynamics.simulation.logic.Adjusting'):
    """adjusting forces for all, adjusting torques for three-circle agents"""
    agents = self.simulation.agents.array
    force_adjust_agents(agents)
    if agents.dtype == agent_type_three_circle:
        torque_adjust_agents(agents)


@ref('C20 C21', 'crowddynamics.simulation.logic.Integrator.update', attrs={'array': 'recs:agents'}, again='simulation.field.obstacles simulation.agents.array')
def integrate(self: 'obj:crowddynamics.simulation.logic.Integrator'):
    """agents move by one step; the step is published and added to the total time"""
    dt = velocity_verlet_integrator(self.simulation.agents.array, self.dt_min, self.dt_max)
    self.simulation.data['dt'] = dt
    self.simulation.data['time_tot'] = self.simulation.data['time_tot'] + dt


@ref('C24', 'crowddynamics.simulation.logic.AgentAgentInteractions.update', attrs={'array': 'recs:agents'}, again='simulation.field.obstacles simulation.agents.array')
def pairs(self: 'obj:crowddynamics.simulation.logic.AgentAgentInteractions'):
    """pair interactions with the node's cell size"""
    dispatch_pairs(self.simulation.agents.array, self.cell_size)


@ref('C24', 'crowddynamics.core.interactions.agent_agent_block_list')
def dispatch_pairs(agents: 'recs:agents', cell_size: 'real'):
    """every pair of the cell list once, with the interaction of the agents' own model; other arrays are refused"""
    points, count, offset, shape = cell_lists.add_to_cells(agents['position'], cell_size)
    cells = np.arange(len(count))
    neighbours = cell_lists.neighboring_cells(shape)
    if agents.dtype == agent_type_circular:
        for i, j in cell_lists.iter_nearest_neighbors(cells, neighbours, points, count, offset):
            interaction_agent_agent_circular(i, j, agents)
    elif agents.dtype == agent_type_three_circle:
        for i, j in cell_lists.iter_nearest_neighbors(cells, neighbours, points, count, offset):
            interaction_agent_agent_three_circle(i, j, agents)
    else:
        raise InvalidType


@ref('C24 C48', 'crowddynamics.simulation.logic.AgentAgentInteractions._default_cell_size')
def cell(self: 'obj:crowddynamics.simulation.logic.AgentAgentInteractions'):
    """cells span the sight plus two radii, so that neighbouring cells hold every pair in sight"""
    return self.sight_soc + 2 * self.max_agent_radius


@ref('C24 C32', 'crowddynamics.simulation.logic.AgentObstacleInteractions.update', attrs={'array': 'recs:agents'}, again='simulation.field.obstacles simulation.agents.array')
def walls(self: 'obj:crowddynamics.simulation.logic.AgentObstacleInteractions'):
    """every agent meets every segment of the field's obstacles; a field without obstacles has no segments"""
    if self.simulation.field.obstacles is None:
        obstacles = np.zeros(0, dtype=obstacle_type_linear)
    else:
        obstacles = geom_to_linear_obstacles(self.simulation.field.obstacles)
    dispatch_walls(self.simulation.agents.array, obstacles)


@ref('C23 C24', 'crowddynamics.core.interactions.agent_obstacle')
def dispatch_walls(agents: 'recs:agents', obstacles: 'recs:obstacles'):
    """every (agent, segment) pair once, with the interaction of the agents' own model; other arrays are refused"""
    if agents.dtype == agent_type_circular:
        for i in range(len(agents)):
            for w in range(len(obstacles)):
                interaction_agent_circular_obstacle(i, w, agents, obstacles)
    elif agents.dtype == agent_type_three_circle:
        for i in range(len(agents)):
            for w in range(len(obstacles)):
                interaction_agent_three_circle_obstacle(i, w, agents, obstacles)
    else:
        raise InvalidType


@ref('C18', 'crowddynamics.simulation.logic.Orientation.update', attrs={'array': 'recs:agents'}, again='simulation.field.obstacles simulation.agents.array')
def orient(self: 'obj:crowddynamics.simulation.logic.Orientation'):
    """only three-circle agents have a target orientation to update"""
    if self.simulation.agents.array.dtype == agent_type_three_circle:
        orient_towards_target_direction(self.simulation.agents.array)


@ref('C18', 'crowddynamics.core.steering.orientation.orient_towards_target_direction')
def face_target(agents: 'recs:agents'):
    """every agent turns towards the direction it wants to go"""
    for agent in agents:
        agent['target_orientation'] = np.arctan2(agent['target_direction'][1], agent['target_direction'][0])


@ref('C19', 'crowddynamics.core.motion.fluctuation.force_fluctuation')
def force_noise(mass: 'arr:real@n', scale: 'arr:real@n'):
    """mass times a truncated-normal magnitude (0 to 3 standard deviations) in a uniform direction, one row per agent"""
    phi = np.random.uniform(0.0, 2.0 * np.pi, size=len(mass))
    m = truncnorm(0.0, 3.0, loc=0.0, scale=scale, size=len(mass))
    return np.array((np.cos(phi) * m * mass, np.sin(phi) * m * mass)).T


@ref('C19', 'crowddynamics.core.motion.fluctuation.torque_fluctuation')
def torque_noise(inertia_rot: 'arr:real@n', scale: 'arr:real@n'):
    """inertia times a truncated-normal value within 3 standard deviations"""
    return inertia_rot * truncnorm(-3.0, 3.0, loc=0.0, scale=scale, size=len(inertia_rot))


@ref('C19 C48', 'crowddynamics.core.rand.truncnorm', also=[{'abs_scale': 'const:None'}, {'abs_scale': 'real'}])
def bounded_normal(start: 'real', end: 'real', loc: 'real' = 0.0, scale: 'real' = 1.0, abs_scale: 'any' = None, size: 'int' = 1, random_state: 'any' = None):
    """one scipy draw between start and end standard deviations; a given absolute scale is the largest deviation"""
    import scipy.stats
    if abs_scale:
        scale = abs_scale / max(abs(start), abs(end))
    return scipy.stats.truncnorm.rvs(start, end, loc=loc, scale=scale, size=size, random_state=random_state)
