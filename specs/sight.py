"""Lines of sight, exits, navigation and following."""
import numpy as np

from crowddynamics.core.vector2D import normalize, length, weighted_average, dot
from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.simulation.agents import NO_LEADER, NO_TARGET


@ref('C34 C35 C36', 'crowddynamics.core.geom2D.line_intersect')
def crossing(x0: 'vec2', x1: 'vec2', y0: 'vec2', y1: 'vec2'):
    """two segments that are not parallel meet when the crossing of their lines lies on both, end points included"""
    u = x1 - x0
    v = y1 - y0
    b = y0 - x0
    d = u[0] * v[1] - u[1] * v[0]
    if d == 0:
        return False
    s = (b[0] * v[1] - b[1] * v[0]) / d
    t = (b[0] * u[1] - b[1] * u[0]) / d
    return s >= 0 and s <= 1 and t >= 0 and t <= 1


@ref('C34 C35 C36', 'crowddynamics.core.sensory_region.is_obstacle_between_points')
def hidden(p0: 'vec2', p1: 'vec2', obstacles: 'recs:obstacles'):
    """some wall crosses the straight line between the points"""
    for k in range(len(obstacles)):
        if crossing(p0, p1, obstacles[k]['p0'], obstacles[k]['p1']):
            return True
    return False


@ref('C35', 'crowddynamics.core.evacuation.exit_detection')
def detect(center_door: 'arr:vec2@m', position: 'arr:vec2@n', obstacles: 'recs:obstacles', detection_range: 'real'):
    """the nearest exit strictly within range and in sight (the first one on ties), or -1"""
    n = len(position)
    best = np.full(n, detection_range)
    chosen = np.full(n, -1)
    found = np.zeros(n, dtype=np.bool_)
    for i in range(n):
        for c in range(len(center_door)):
            if not hidden(position[i], center_door[c], obstacles):
                d = length(center_door[c] - position[i])
                if d < best[i]:
                    best[i] = d
                    chosen[i] = c
                    found[i] = True
    return chosen, found


@ref('C37', 'crowddynamics.core.evacuation.narrow_exit_capacity', also=[{'d_layer': 'const:None'}])
def capacity(d_door: 'real', d_agent: 'real', d_layer: 'real' = None, coeff: 'real' = 1.0):
    """zero for doors narrower than an agent, otherwise the coefficient times the whole number of lanes, counted by agent or layer width"""
    if d_door < d_agent:
        return 0.0
    if d_layer is None:
        return coeff * (d_door // d_agent)
    return coeff * ((d_door - d_agent + d_layer) // d_layer)


@ref('C37', 'crowddynamics.core.evacuation.agent_closer_to_exit')
def rank(c_door: 'vec2', position: 'arr:vec2@n'):
    """every position gets the number of positions closer to the exit"""
    return np.argsort(np.argsort(length(c_door - position)))


@ref('C33', 'crowddynamics.core.steering.navigation.getdefault', asserts=True)
def lookup(indices: 'arr:ivec2@n', dir_map: 'tup:arr2:real,arr2:real', defaults: 'arr:vec2@n'):
    """the mapped direction for indices on the map, the default for all others; the defaults stay as they are"""
    assert indices.shape == defaults.shape
    out = np.copy(defaults)
    u, v = dir_map
    for k in range(len(indices)):
        i, j = indices[k]
        if 0 <= i and i < u.shape[0] and 0 <= j and j < u.shape[1]:
            out[k][0] = u[i, j]
            out[k][1] = v[i, j]
    return out


@ref('C33', 'crowddynamics.core.steering.obstacle_handling.obstacle_handling')
def avoid(dmap_obs: 'any', dir_map_obs: 'tup:any,any', dir_map_targets: 'tup:any,any', radius: 'real', strength: 'real'):
    """within the radius of obstacles the direction turns away from them with weight strength^(distance/radius); the result is normalised; inputs stay as they are"""
    u1, v1 = dir_map_obs
    u2, v2 = dir_map_targets
    u = np.copy(u2)
    v = np.copy(v2)
    n, m = dmap_obs.shape
    for i in range(n):
        for j in range(m):
            x = -dmap_obs[i, j]
            if x > 0 and x < radius:
                p = strength ** (x / radius)
                u[i, j] = (1 - p) * u2[i, j] - p * u1[i, j]
                v[i, j] = (1 - p) * v2[i, j] - p * v1[i, j]
    l = np.hypot(u, v)
    return u / l, v / l


@ref('C33', 'crowddynamics.core.steering.obstacle_handling.obstacle_handling_continuous', optional=True)
def avoid_each(dmap_obs: 'any', dir_map_obs: 'tup:any,any', direction_target: 'arr:vec2@n', indices: 'any', radius: 'real', strength: 'real'):
    """the same for single directions; indices outside the map keep their direction"""
    u1, v1 = dir_map_obs
    out = np.copy(direction_target)
    n, m = dmap_obs.shape
    for k in range(len(indices)):
        i = indices[k, 0]
        j = indices[k, 1]
        if 0 <= i and i < n and 0 <= j and j < m:
            x = -dmap_obs[i, j]
            if 0 < x and x < radius:
                p = strength ** (x / radius)
                new = np.array(((1 - p) * direction_target[k, 0] - p * u1[i, j], (1 - p) * direction_target[k, 1] - p * v1[i, j]))
                out[k, :] = normalize(new)
    return out


@ref('C32 C33', 'crowddynamics.simulation.logic.Navigation.update', attrs={'array': 'recs:agents'}, again='simulation.field.obstacles simulation.field.targets simulation.field.domain simulation.agents.array')
def navigate(self: 'obj:crowddynamics.simulation.logic.Navigation'):
    """agents with a target follow that target's direction map where they stand, off the map they keep their direction; others are left alone"""
    from crowddynamics.core.steering.navigation import getdefault
    agents = self.simulation.agents.array
    field = self.simulation.field
    for target in range(len(field.targets)):
        chosen = agents['target'] == target
        if chosen.size:
            mgrid, _, dirs = field.navigation_to_target(target, self.step, self.radius, self.strength)
            indices = np.fliplr(mgrid.indicer(agents[chosen]['position']))
            agents['target_direction'][chosen] = getdefault(indices, dirs, agents[chosen]['target_direction'])


@ref('C35', 'crowddynamics.simulation.logic.ExitDetection.update', attrs={'array': 'recs:agents'}, again='simulation.field.obstacles simulation.field.targets simulation.field.domain simulation.agents.array')
def see_exits(self: 'obj:crowddynamics.simulation.logic.ExitDetection'):
    """followers that see an exit in range head for it and stop following; nobody else changes"""
    from crowddynamics.core.geometry import geom_to_linear_obstacles
    from crowddynamics.core.evacuation import exit_detection
    agents = self.simulation.agents.array
    field = self.simulation.field
    doors = np.stack([np.mean(np.asarray(t), axis=0) for t in field.targets])
    walls = geom_to_linear_obstacles(field.obstacles)
    exits, found = exit_detection(doors, agents['position'], walls, self.detection_range)
    mask = agents['is_follower'] & found
    agents['target'][mask] = exits[mask]
    agents['is_follower'][mask] = False


@ref('C33', 'crowddynamics.core.steering.navigation.is_inside')
def within(a: 'tup:real,real', lower: 'tup:real,real', upper: 'tup:real,real'):
    """a point is inside from the lower bounds on and before the upper bounds"""
    return lower[0] <= a[0] < upper[0] and lower[1] <= a[1] < upper[1]
