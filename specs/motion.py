"""Forces and torques on agents."""
import numpy as np
from specs.vec import dot, cross, length, right, wrap, truncate
from specs.skin import circles, circle_segment, bodies, body_segment

SIGHT = 3.0
CAP = 2e3
HORIZON = 30.0


@ref('C16', 'crowddynamics.core.motion.contact.force_contact')
def contact(h: 'real', n: 'vec2', v: 'vec2', t: 'vec2', mu: 'real', kappa: 'real', damping: 'real'):
    """elastic repulsion along the normal, sliding friction along the tangent, damping of the normal velocity"""
    return -h * mu * n + h * kappa * dot(v, t) * t + damping * dot(v, n) * n


@ref('C17', 'crowddynamics.core.motion.power_law.magnitude')
def magnitude(tau: 'real', tau_0: 'real'):
    """minus the derivative of exp(-tau/tau_0)/tau^2"""
    return np.exp(-tau / tau_0) * (2 / tau ** 3 + 1 / (tau_0 * tau ** 2))


@ref('C17', 'crowddynamics.core.motion.power_law.potential')
def potential(k: 'real', tau: 'real', tau_0: 'real'):
    """interaction energy k exp(-tau/tau_0)/tau^2"""
    return k * np.exp(-tau / tau_0) / (tau * tau)


@ref('C17', 'crowddynamics.core.motion.power_law.gradient_circle_circle')
def descent(x_rel: 'vec2', v_rel: 'vec2', a: 'real', b: 'real', d: 'real'):
    """minus the spatial gradient of tau = (b - d) / a for a = v.v, b = -x.v, d^2 = b^2 - a (x.x - r^2)"""
    return v_rel / a - (b * v_rel + a * x_rel) / (a * d)


@ref('C17', 'crowddynamics.core.motion.power_law.gradient_three_circle')
def descent_parts(x_rel: 'vec2', v_rel: 'vec2', r_off: 'vec2', a: 'real', b: 'real', d: 'real'):
    """the same for parts displaced by r_off from the centres"""
    return descent(x_rel + r_off, v_rel, a, b, d)


@ref('C17', 'crowddynamics.core.motion.power_law.time_to_collision_circle_circle')
def collision_time(x_rel: 'vec2', v_rel: 'vec2', r_tot: 'real'):
    """first time at which the moving discs touch, nan when they never will or already have"""
    a = dot(v_rel, v_rel)
    b = -dot(x_rel, v_rel)
    d = np.sqrt(b * b - a * (dot(x_rel, x_rel) - r_tot * r_tot))
    if np.isnan(d) or d == 0 or a == 0:
        return np.nan, np.zeros(2)
    tau = (b - d) / a
    if tau <= 0:
        return np.nan, np.zeros(2)
    return tau, descent(x_rel, v_rel, a, b, d)


def push(agent, i, g, tau):
    f = -agent[i]['mass'] * agent[i]['k_soc'] * magnitude(tau, agent[i]['tau_0']) * g
    truncate(f, CAP)
    return f


@ref('C17', 'crowddynamics.core.motion.power_law.force_social_circular')
def social_circular(agents: 'recs:agents', i: 'int', j: 'int'):
    """no force unless the discs touch within the next 30 s; otherwise opposite pushes down the gradient of the interaction energy, each at most 2 kN"""
    x = agents[i]['position'] - agents[j]['position']
    v = agents[i]['velocity'] - agents[j]['velocity']
    a = dot(v, v)
    b = -dot(x, v)
    d = np.sqrt(b * b - a * (dot(x, x) - (agents[i]['radius'] + agents[j]['radius']) ** 2))
    if np.isnan(d) or d == 0 or a == 0:
        return np.zeros(2), np.zeros(2)
    tau = (b - d) / a
    if tau <= 0 or tau > HORIZON:
        return np.zeros(2), np.zeros(2)
    g = descent(x, v, a, b, d)
    return push(agents, i, g, tau), push(agents, j, -g, tau)


@ref('C15 C17', 'crowddynamics.core.motion.power_law.force_social_three_circle')
def social_three_circle(agents: 'recs:agents', i: 'int', j: 'int'):
    """the pair of parts that will touch first sets the time to collision and the gradient; opposite pushes, each at most 2 kN; none without a future contact"""
    v = agents[i]['velocity'] - agents[j]['velocity']
    a = dot(v, v)
    if a == 0:
        return np.zeros(2), np.zeros(2)
    xi = (agents[i]['position'], agents[i]['position_ls'], agents[i]['position_rs'])
    xj = (agents[j]['position'], agents[j]['position_ls'], agents[j]['position_rs'])
    ri = (agents[i]['r_t'], agents[i]['r_s'], agents[i]['r_s'])
    rj = (agents[j]['r_t'], agents[j]['r_s'], agents[j]['r_s'])
    tau = bm = dm = np.nan
    ci = cj = 0
    for k in range(3):
        for l in range(3):
            x = xi[k] - xj[l]
            b = -dot(x, v)
            d = np.sqrt(b * b - a * (dot(x, x) - (ri[k] + rj[l]) ** 2))
            if np.isnan(d) or d == 0:
                continue
            new = (b - d) / a
            if new > 0 and (np.isnan(tau) or new < tau):
                tau, bm, dm, ci, cj = new, b, d, k, l
    if np.isnan(tau):
        return np.zeros(2), np.zeros(2)
    x = agents[i]['position'] - agents[j]['position'] + side(agents[i], ci) - side(agents[j], cj)
    g = descent(x, v, a, bm, dm)
    return push(agents, i, g, tau), push(agents, j, -g, tau)


def side(agent, part):
    """displacement of a part from the torso"""
    t = agent['r_ts'] * np.array((np.sin(agent['orientation']), -np.cos(agent['orientation'])))
    if part == 1:
        return -t
    if part == 2:
        return t
    return np.zeros(2)


def distinct(i, j, agents):
    return i != j


@ref('C15 C16', 'crowddynamics.core.interactions.interaction_agent_agent_circular', pre='distinct')
def pair_circular(i: 'int', j: 'int', agents: 'recs:agents'):
    """within 3 m skin distance both agents receive the social force, and overlapping ones the contact force with opposite signs; nothing else changes"""
    h, n = circles(agents[i]['position'], agents[i]['radius'], agents[j]['position'], agents[j]['radius'])
    if h < SIGHT:
        fi, fj = social_circular(agents, i, j)
        if h < 0:
            v = agents[i]['velocity'] - agents[j]['velocity']
            t = right(n)
            fi = fi + contact(h, n, v, t, agents[i]['mu'], agents[i]['kappa'], agents[i]['damping'])
            fj = fj - contact(h, n, v, t, agents[j]['mu'], agents[j]['kappa'], agents[j]['damping'])
        agents[i]['force'] = agents[i]['force'] + fi
        agents[j]['force'] = agents[j]['force'] + fj


@ref('C15 C16', 'crowddynamics.core.interactions.interaction_agent_agent_three_circle', pre='distinct')
def pair_three_circle(i: 'int', j: 'int', agents: 'recs:agents'):
    """as for discs, with the closest parts deciding, and each torque grows by arm cross force"""
    xi = (agents[i]['position'], agents[i]['position_ls'], agents[i]['position_rs'])
    xj = (agents[j]['position'], agents[j]['position_ls'], agents[j]['position_rs'])
    ri = (agents[i]['r_t'], agents[i]['r_s'], agents[i]['r_s'])
    rj = (agents[j]['r_t'], agents[j]['r_s'], agents[j]['r_s'])
    h, n, mi, mj = bodies(xi, ri, xj, rj)
    if h < SIGHT:
        fi, fj = social_three_circle(agents, i, j)
        if h < 0:
            v = agents[i]['velocity'] - agents[j]['velocity']
            t = right(n)
            fi = fi + contact(h, n, v, t, agents[i]['mu'], agents[i]['kappa'], agents[i]['damping'])
            fj = fj - contact(h, n, v, t, agents[j]['mu'], agents[j]['kappa'], agents[j]['damping'])
        agents[i]['force'] = agents[i]['force'] + fi
        agents[j]['force'] = agents[j]['force'] + fj
        agents[i]['torque'] = agents[i]['torque'] + cross(mi, fi)
        agents[j]['torque'] = agents[j]['torque'] + cross(mj, fj)


@ref('C16', 'crowddynamics.core.interactions.interaction_agent_circular_obstacle')
def wall_circular(i: 'int', w: 'int', agents: 'recs:agents', obstacles: 'recs:obstacles'):
    """a wall acts only on contact, and only through the contact force"""
    h, n = circle_segment(agents[i]['position'], agents[i]['radius'], obstacles[w]['p0'], obstacles[w]['p1'])
    if h < 0:
        agents[i]['force'] = agents[i]['force'] + contact(h, n, agents[i]['velocity'], right(n), agents[i]['mu'], agents[i]['kappa'], agents[i]['damping'])


@ref('C16', 'crowddynamics.core.interactions.interaction_agent_three_circle_obstacle')
def wall_three_circle(i: 'int', w: 'int', agents: 'recs:agents', obstacles: 'recs:obstacles'):
    """a wall acts only on contact, through the contact force and its torque"""
    x = (agents[i]['position'], agents[i]['position_ls'], agents[i]['position_rs'])
    r = (agents[i]['r_t'], agents[i]['r_s'], agents[i]['r_s'])
    h, n, m = body_segment(x, r, obstacles[w]['p0'], obstacles[w]['p1'])
    if h < 0:
        f = contact(h, n, agents[i]['velocity'], right(n), agents[i]['mu'], agents[i]['kappa'], agents[i]['damping'])
        agents[i]['force'] = agents[i]['force'] + f
        agents[i]['torque'] = agents[i]['torque'] + cross(m, f)


@ref('C18', 'crowddynamics.core.motion.adjusting.force_adjust')
def adjust(mass: 'real', tau_adj: 'real', v0: 'real', e0: 'vec2', v: 'vec2'):
    """mass times the missing velocity over the relaxation time"""
    return mass * (v0 * e0 - v) / tau_adj


@ref('C18', 'crowddynamics.core.motion.adjusting.torque_adjust')
def turn(inertia_rot: 'real', tau_rot: 'real', phi_0: 'real', phi: 'real', omega_0: 'real', omega: 'real'):
    """drives the angular velocity towards a value proportional to the shortest turn to the target orientation"""
    return inertia_rot * (omega_0 * wrap(phi_0 - phi) / np.pi - omega) / tau_rot


@ref('C18 C23', 'crowddynamics.core.motion.adjusting.force_adjust_agents')
def adjust_all(agents: 'recs:agents'):
    """every agent's force grows by its own adjusting force; nothing else changes"""
    for k in range(len(agents)):
        agents[k]['force'] = agents[k]['force'] + adjust(agents[k]['mass'], agents[k]['tau_adj'], agents[k]['target_velocity'],
                                                         agents[k]['target_direction'], agents[k]['velocity'])


@ref('C18 C23', 'crowddynamics.core.motion.adjusting.torque_adjust_agents')
def turn_all(agents: 'recs:agents'):
    """every agent's torque grows by its own adjusting torque; nothing else changes"""
    for k in range(len(agents)):
        agents[k]['torque'] = agents[k]['torque'] + turn(agents[k]['inertia_rot'], agents[k]['tau_rot'], agents[k]['target_orientation'],
                                                         agents[k]['orientation'], agents[k]['target_angular_velocity'],
                                                         agents[k]['angular_velocity'])
