"""How one time step moves the agents."""
import numpy as np
from crowddynamics.simulation.agents import agent_type_three_circle, agent_type_circular
from crowddynamics.core import integrator as code
from specs.vec import length, wrap


@ref('C21', 'crowddynamics.core.integrator.adaptive_timestep')
def timestep(agents: 'recs:agents', dt_min: 'real', dt_max: 'real'):
    """dt_max when nobody moves, otherwise 1.1 dt_max times the largest target speed over the largest speed, limited to [dt_min, dt_max]"""
    fastest = 0.0
    for k in range(len(agents)):
        fastest = max(fastest, length(agents[k]['velocity']))
    if fastest == 0:
        return dt_max
    dt = 1.1 * np.max(agents['target_velocity']) * dt_max / fastest
    if dt > dt_max:
        return dt_max
    if dt < dt_min:
        return dt_min
    return dt


@ref('C20', 'crowddynamics.core.integrator.translational_euler')
def euler(agents: 'recs:agents', dt: 'real'):
    """x += v dt + a dt^2 / 2 with the old velocity, v += a dt, a = force / mass"""
    for k in range(len(agents)):
        a = agents[k]['force'] / agents[k]['mass']
        v = agents[k]['velocity'] + a * dt
        agents[k]['position'] = agents[k]['position'] + agents[k]['velocity'] * dt + a * dt * dt / 2
        agents[k]['velocity'] = v


@ref('C20', 'crowddynamics.core.integrator.rotational_euler')
def turn_euler(agents: 'recs:agents', dt: 'real'):
    """the same for orientation (reduced to [-pi, pi]) and angular velocity"""
    for k in range(len(agents)):
        a = agents[k]['torque'] / agents[k]['inertia_rot']
        agents[k]['orientation'] = wrap(agents[k]['orientation'] + agents[k]['angular_velocity'] * dt + a * dt * dt / 2)
        agents[k]['angular_velocity'] = agents[k]['angular_velocity'] + a * dt


@ref('C20', 'crowddynamics.core.integrator.translational_verlet')
def verlet(agents: 'recs:agents', dt: 'real'):
    """v += (a_prev + a) dt / 2, then x += v dt + a dt^2 / 2; the force becomes the previous force"""
    for k in range(len(agents)):
        a = agents[k]['force'] / agents[k]['mass']
        b = agents[k]['force_prev'] / agents[k]['mass']
        v = agents[k]['velocity'] + (a + b) * dt / 2
        agents[k]['position'] = agents[k]['position'] + v * dt + a * dt * dt / 2
        agents[k]['velocity'] = v
        agents[k]['force_prev'] = agents[k]['force']


@ref('C20', 'crowddynamics.core.integrator.rotational_verlet')
def turn_verlet(agents: 'recs:agents', dt: 'real'):
    """the same for orientation (reduced to [-pi, pi]) and angular velocity"""
    for k in range(len(agents)):
        a = agents[k]['torque'] / agents[k]['inertia_rot']
        b = agents[k]['torque_prev'] / agents[k]['inertia_rot']
        w = agents[k]['angular_velocity'] + (a + b) * dt / 2
        agents[k]['orientation'] = wrap(agents[k]['orientation'] + w * dt + a * dt * dt / 2)
        agents[k]['angular_velocity'] = w
        agents[k]['torque_prev'] = agents[k]['torque']


@ref('C22', 'crowddynamics.simulation.agents.shoulders')
def place_shoulders(agents: 'recs:agents'):
    """left and right shoulder lie r_ts to either side of the torso, across the orientation"""
    for k in range(len(agents)):
        right = np.array((np.sin(agents[k]['orientation']), -np.cos(agents[k]['orientation'])))
        agents[k]['position_ls'] = agents[k]['position'] - agents[k]['r_ts'] * right
        agents[k]['position_rs'] = agents[k]['position'] + agents[k]['r_ts'] * right


@ref('C20 C21 C22', 'crowddynamics.core.integrator.velocity_verlet_integrator')
def verlet_step(agents: 'recs:agents', dt_min: 'real', dt_max: 'real'):
    """one adaptive step moves every agent, turns three-circle agents and carries their shoulders along; the step is returned"""
    dt = timestep(agents, dt_min, dt_max)
    verlet(agents, dt)
    if agents.dtype == agent_type_three_circle:
        turn_verlet(agents, dt)
        place_shoulders(agents)
    return dt


@ref('C20 C21 C22', 'crowddynamics.core.integrator.euler_integrator')
def euler_step(agents: 'recs:agents', dt_min: 'real', dt_max: 'real'):
    """one adaptive step moves every agent, turns three-circle agents and carries their shoulders along; the step is returned"""
    dt = timestep(agents, dt_min, dt_max)
    euler(agents, dt)
    if agents.dtype == agent_type_three_circle:
        turn_euler(agents, dt)
        place_shoulders(agents)
    return dt


@ref('C20 C22', 'crowddynamics.core.integrator.velocity_verlet_integrator_init')
def verlet_start(agents: 'recs:agents', dt_min: 'real', dt_max: 'real'):
    """an Euler step that remembers the force and torque for the next one"""
    dt = timestep(agents, dt_min, dt_max)
    euler(agents, dt)
    for k in range(len(agents)):
        agents[k]['force_prev'] = agents[k]['force']
    if agents.dtype == agent_type_three_circle:
        turn_euler(agents, dt)
        for k in range(len(agents)):
            agents[k]['torque_prev'] = agents[k]['torque']
        place_shoulders(agents)
    return dt


# laws that do not fix the scheme

def first_orientation(agents, dt):
    code.rotational_verlet(agents, dt)
    return agents[0]['orientation'] <= np.pi and agents[0]['orientation'] >= -np.pi
