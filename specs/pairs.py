"""Laws every pair interaction obeys, whatever its magnitude."""
import numpy as np
from crowddynamics.core.motion.power_law import force_social_circular, force_social_three_circle
from crowddynamics.core.interactions import interaction_agent_agent_circular, interaction_agent_agent_three_circle, \
    interaction_agent_circular_obstacle, interaction_agent_three_circle_obstacle
from crowddynamics.core.distance import distance_circles, distance_three_circles
from specs.vec import cross


def distinct(i, j, agents):
    return i != j


def twins(agents, i, j):
    """give both agents the same body constants"""
    for name in ('mass', 'k_soc', 'tau_0', 'mu', 'kappa', 'damping'):
        agents[j][name] = agents[i][name]


def nothing(agents: 'recs:agents', i: 'int', j: 'int'):
    return np.zeros(2)


def social_sum_circular(agents, i, j):
    twins(agents, i, j)
    f, g = force_social_circular(agents, i, j)
    return f + g


def social_sum_three(agents, i, j):
    twins(agents, i, j)
    f, g = force_social_three_circle(agents, i, j)
    return f + g


@ref('C15', 'specs.pairs.social_sum_circular', at='crowddynamics.core.motion.power_law.force_social_circular', pre='distinct2', observe='ret')
def s1(agents: 'recs:agents', i: 'int', j: 'int'):
    """the social pushes on two discs of equal constants cancel"""
    return np.zeros(2)


@ref('C15', 'specs.pairs.social_sum_three', at='crowddynamics.core.motion.power_law.force_social_three_circle', pre='distinct2', observe='ret')
def s2(agents: 'recs:agents', i: 'int', j: 'int'):
    """the social pushes on two three-circle agents of equal constants cancel"""
    return np.zeros(2)


def distinct2(agents, i, j):
    return i != j


def pair_sum_circular(agents, i, j):
    twins(agents, i, j)
    a = np.copy(agents[i]['force'])
    b = np.copy(agents[j]['force'])
    interaction_agent_agent_circular(i, j, agents)
    return (agents[i]['force'] - a) + (agents[j]['force'] - b)


@ref('C15', 'specs.pairs.pair_sum_circular', at='crowddynamics.core.interactions.interaction_agent_agent_circular', pre='distinct2', observe='ret')
def s3(agents: 'recs:agents', i: 'int', j: 'int'):
    """what two discs of equal constants add to each other's force cancels"""
    return np.zeros(2)


def pair_sum_three(agents, i, j):
    twins(agents, i, j)
    a = np.copy(agents[i]['force'])
    b = np.copy(agents[j]['force'])
    interaction_agent_agent_three_circle(i, j, agents)
    return (agents[i]['force'] - a) + (agents[j]['force'] - b)


@ref('C15', 'specs.pairs.pair_sum_three', at='crowddynamics.core.interactions.interaction_agent_agent_three_circle', pre='distinct2', observe='ret')
def s4(agents: 'recs:agents', i: 'int', j: 'int'):
    """what two three-circle agents of equal constants add to each other's force cancels"""
    return np.zeros(2)


def swapped_circular(agents, i, j):
    f, g = force_social_circular(agents, j, i)
    return g, f


@ref('C15', 'specs.pairs.swapped_circular', at='crowddynamics.core.motion.power_law.force_social_circular', pre='distinct2', observe='ret')
def s5(agents: 'recs:agents', i: 'int', j: 'int'):
    """exchanging the two discs exchanges their social forces"""
    return force_social_circular(agents, i, j)


def swapped_distance(x0, r0, x1, r1):
    h, n = distance_circles(x1, r1, x0, r0)
    return h, -n


@ref('C15', 'specs.pairs.swapped_distance', at='crowddynamics.core.distance.distance_circles', observe='ret')
def s6(x0: 'vec2', r0: 'real', x1: 'vec2', r1: 'real'):
    """exchanging two discs keeps their distance and turns the normal round"""
    return distance_circles(x0, r0, x1, r1)


def add_circular(agents, i, j):
    a = np.copy(agents[i]['force'])
    b = np.copy(agents[j]['force'])
    interaction_agent_agent_circular(i, j, agents)
    return agents[i]['force'] - a, agents[j]['force'] - b


@ref('C23', 'specs.pairs.add_circular', at='crowddynamics.core.interactions.interaction_agent_agent_circular', pre='distinct2', observe='ret')
def a1(agents: 'recs:agents', i: 'int', j: 'int'):
    """what a pair adds does not depend on the forces collected so far"""
    agents[i]['force'] = 0
    agents[j]['force'] = 0
    interaction_agent_agent_circular(i, j, agents)
    return agents[i]['force'], agents[j]['force']


def add_three(agents, i, j):
    a = np.copy(agents[i]['force'])
    b = np.copy(agents[j]['force'])
    c = agents[i]['torque']
    d = agents[j]['torque']
    interaction_agent_agent_three_circle(i, j, agents)
    return agents[i]['force'] - a, agents[j]['force'] - b, agents[i]['torque'] - c, agents[j]['torque'] - d


@ref('C23', 'specs.pairs.add_three', at='crowddynamics.core.interactions.interaction_agent_agent_three_circle', pre='distinct2', observe='ret')
def a2(agents: 'recs:agents', i: 'int', j: 'int'):
    """what a pair adds does not depend on the forces and torques collected so far"""
    agents[i]['force'] = 0
    agents[j]['force'] = 0
    agents[i]['torque'] = 0
    agents[j]['torque'] = 0
    interaction_agent_agent_three_circle(i, j, agents)
    return agents[i]['force'], agents[j]['force'], agents[i]['torque'], agents[j]['torque']


def add_wall_circular(agents, obstacles, i, w):
    a = np.copy(agents[i]['force'])
    interaction_agent_circular_obstacle(i, w, agents, obstacles)
    return agents[i]['force'] - a


@ref('C23', 'specs.pairs.add_wall_circular', at='crowddynamics.core.interactions.interaction_agent_circular_obstacle', observe='ret')
def a3(agents: 'recs:agents', obstacles: 'recs:obstacles', i: 'int', w: 'int'):
    """what a wall adds does not depend on the forces collected so far"""
    agents[i]['force'] = 0
    interaction_agent_circular_obstacle(i, w, agents, obstacles)
    return agents[i]['force']


def add_wall_three(agents, obstacles, i, w):
    a = np.copy(agents[i]['force'])
    c = agents[i]['torque']
    interaction_agent_three_circle_obstacle(i, w, agents, obstacles)
    return agents[i]['force'] - a, agents[i]['torque'] - c


@ref('C23', 'specs.pairs.add_wall_three', at='crowddynamics.core.interactions.interaction_agent_three_circle_obstacle', observe='ret')
def a4(agents: 'recs:agents', obstacles: 'recs:obstacles', i: 'int', w: 'int'):
    """what a wall adds does not depend on the forces and torques collected so far"""
    agents[i]['force'] = 0
    agents[i]['torque'] = 0
    interaction_agent_three_circle_obstacle(i, w, agents, obstacles)
    return agents[i]['force'], agents[i]['torque']
