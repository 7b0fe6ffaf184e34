"""Agents: shapes, sizes, groups and placement."""
import numpy as np
from traitlets.traitlets import TraitError
from collections import Collection, Generator, Callable

from crowddynamics.core.vector2D import rotate270, unit_vector
from crowddynamics.core.distance import distance_circles, distance_three_circles, distance_circle_line, distance_three_circle_line
from crowddynamics.core.rand import truncnorm
from crowddynamics.traits import class_to_struct_dtype
from crowddynamics.exceptions import CrowdDynamicsException


@ref('C27', 'crowddynamics.simulation.agents.overlapping_circles')
def touch_circles(agents: 'recs:agents', x: 'vec2', r: 'real'):
    """a disk overlaps a crowd when its distance to any of the disks is negative"""
    return any(distance_circles(a['position'], a['radius'], x, r)[0] < 0 for a in agents)


@ref('C27', 'crowddynamics.simulation.agents.overlapping_three_circles')
def touch_bodies(agents: 'recs:agents', x: 'tup:vec2,vec2,vec2', r: 'tup:real,real,real'):
    """a three-circle body overlaps a crowd when its distance to any of the bodies is negative"""
    return any(distance_three_circles((a['position'], a['position_ls'], a['position_rs']), (a['r_t'], a['r_s'], a['r_s']), x, r)[0] < 0
               for a in agents)


@ref('C27', 'crowddynamics.simulation.agents.overlapping_circle_line')
def touch_walls(agents: 'recs:agents', obstacles: 'recs:obstacles'):
    """disks overlap walls when the distance of any disk to any wall is negative"""
    return any(distance_circle_line(a['position'], a['radius'], o['p0'], o['p1'])[0] < 0 for a in agents for o in obstacles)


@ref('C27', 'crowddynamics.simulation.agents.overlapping_three_circle_line')
def body_walls(agents: 'recs:agents', obstacles: 'recs:obstacles'):
    """bodies overlap walls when the distance of any body to any wall is negative"""
    return any(distance_three_circle_line((a['position'], a['position_ls'], a['position_rs']), (a['r_t'], a['r_s'], a['r_s']), o['p0'], o['p1'])[0] < 0
               for a in agents for o in obstacles)


@ref('C27', 'crowddynamics.simulation.agents.Circular.overlapping')
def disk_overlaps(self: 'obj:crowddynamics.simulation.agents.Circular', others: 'recs:agents'):
    """a circular agent is tested with its own position and radius"""
    return any(distance_circles(a['position'], a['radius'], self.position, self.radius)[0] < 0 for a in others)


@ref('C27', 'crowddynamics.simulation.agents.ThreeCircle.overlapping')
def body_overlaps(self: 'obj:crowddynamics.simulation.agents.ThreeCircle', others: 'recs:agents'):
    """a three-circle agent is tested with its own torso and shoulders"""
    return any(distance_three_circles((a['position'], a['position_ls'], a['position_rs']), (a['r_t'], a['r_s'], a['r_s']),
                                      (self.position, self.position_ls, self.position_rs), (self.r_t, self.r_s, self.r_s))[0] < 0
               for a in others)


@ref('C27', 'crowddynamics.simulation.agents.Circular.overlapping_obstacles')
def disk_walls(self: 'obj:crowddynamics.simulation.agents.Circular', obstacles: 'any'):
    """the agent itself is tested against all walls"""
    from crowddynamics.simulation.agents import overlapping_circle_line
    return overlapping_circle_line(np.array(self), obstacles)


@ref('C27', 'crowddynamics.simulation.agents.ThreeCircle.overlapping_obstacles')
def own_body_walls(self: 'obj:crowddynamics.simulation.agents.ThreeCircle', obstacles: 'any'):
    """the agent itself is tested against all walls"""
    from crowddynamics.simulation.agents import overlapping_three_circle_line
    return overlapping_three_circle_line(np.array(self), obstacles)


@ref('C27 C28 C46', 'crowddynamics.simulation.agents.Agents.add_non_overlapping_group')
def place(self: 'obj:crowddynamics.simulation.agents.Agents', group: 'any', position_gen: 'any', obstacles: 'any' = None):
    """agents are placed in order where they overlap nobody placed before and no wall, up to ten failures per agent; only placed agents have rows"""
    if self.agent_type is not group.agent_type:
        raise CrowdDynamicsException
    self.array = np.concatenate((self.array, np.zeros(group.size, dtype=group.agent_type.dtype())))
    placed = 0
    failed = 0
    allowed = 10 * group.size
    while placed < group.size and failed < allowed:
        agent = group.members[placed]
        if callable(position_gen):
            agent.position = position_gen()
        else:
            agent.position = next(position_gen)
        near = self._neighbours.nearest(agent.position, radius=1)
        if agent.overlapping(self.array[near]):
            failed += 1
        elif obstacles is not None and agent.overlapping_obstacles(obstacles):
            failed += 1
        else:
            self.array[self.index] = np.array(agent)
            self._neighbours[agent.position] = self.index
            self.index += 1
            placed += 1
    self.array = self.array[:self.index]


@ref('C27', 'crowddynamics.simulation.agents.Agents.__init__')
def empty_crowd(self: 'obj:crowddynamics.simulation.agents.Agents', *args, **kwargs):
    """a new crowd is empty; its neighbour cells have the configured size"""
    from crowddynamics.core.block_list import MutableBlockList
    super().__init__(*args, **kwargs)
    self._neighbours = MutableBlockList(cell_size=self.cell_size)
    self.index = 0
    self.array = np.zeros(0, dtype=self.agent_type.dtype())


@ref('C22', 'crowddynamics.simulation.agents.ThreeCircle._default_position_ls')
def left_shoulder(self: 'obj:crowddynamics.simulation.agents.ThreeCircle'):
    """the left shoulder lies at the shoulder distance left of the position, across the orientation"""
    return self.position - self.r_ts * rotate270(unit_vector(self.orientation))


@ref('C22', 'crowddynamics.simulation.agents.ThreeCircle._default_position_rs')
def right_shoulder(self: 'obj:crowddynamics.simulation.agents.ThreeCircle'):
    """the right shoulder lies at the shoulder distance right of the position, across the orientation"""
    return self.position + self.r_ts * rotate270(unit_vector(self.orientation))


@ref('C22', 'crowddynamics.simulation.agents.ThreeCircle._observe_shoulders', optional=True)
def both_shoulders(self: 'obj:crowddynamics.simulation.agents.ThreeCircle', change: 'any'):
    """both shoulders follow"""
    self.position_ls = self.position - self.r_ts * rotate270(unit_vector(self.orientation))
    self.position_rs = self.position + self.r_ts * rotate270(unit_vector(self.orientation))


@ref('C26 C48', 'crowddynamics.simulation.agents.BodyType._truncnorm')
def drawn(mean: 'real', abs_scale: 'real'):
    """a value within the scale around the mean, normal and truncated at three standard deviations"""
    return np.asscalar(truncnorm(-3.0, 3.0, loc=mean, abs_scale=abs_scale))


@ref('C26 C48', 'crowddynamics.core.rand.truncnorm')
def truncated(start: 'real', end: 'real', loc: 'real' = 0.0, scale: 'real' = 1.0, abs_scale: 'any' = None, size: 'int' = 1, random_state: 'any' = None):
    """with an absolute scale the ends of the truncation lie at most that far from the location"""
    import scipy.stats
    if abs_scale:
        s = abs_scale / max(abs(start), abs(end))
    else:
        s = scale
    return scipy.stats.truncnorm.rvs(start, end, loc=loc, scale=s, size=size, random_state=random_state)


@ref('C26', 'crowddynamics.simulation.agents.BodyType._observe_body_type')
def body_values(self: 'obj:crowddynamics.simulation.agents.BodyType', change: 'any'):
    """a body type is set once and sets all of its values"""
    if change['old'] == '':
        for k, v in self.body_types[change['new']].items():
            setattr(self, k, v)
    else:
        raise TraitError('Body type can only be set once.')


@ref('C26', 'crowddynamics.simulation.agents.BodyType._observe_radius_truncnorm')
def radius_drawn(self: 'obj:crowddynamics.simulation.agents.BodyType', change: 'any'):
    """the radius is drawn when it is not set and its distribution is"""
    if self.radius == 0 and self.radius_mean > 0 and self.radius_scale > 0:
        self.radius = self._truncnorm(self.radius_mean, self.radius_scale)


@ref('C26', 'crowddynamics.simulation.agents.BodyType._observe_mass_truncnorm')
def mass_drawn(self: 'obj:crowddynamics.simulation.agents.BodyType', change: 'any'):
    """the mass is drawn when it is not set and its distribution is"""
    if self.mass == 0 and self.mass_mean > 0 and self.mass_scale > 0:
        self.mass = self._truncnorm(self.mass_mean, self.mass_scale)


@ref('C26', 'crowddynamics.simulation.agents.BodyType._observe_target_velocity_truncnorm')
def speed_drawn(self: 'obj:crowddynamics.simulation.agents.BodyType', change: 'any'):
    """the target velocity is drawn when it is not set and its distribution is"""
    if self.target_velocity == 0 and self.target_velocity_mean > 0 and self.target_velocity_scale > 0:
        self.target_velocity = self._truncnorm(self.target_velocity_mean, self.target_velocity_scale)


@ref('C26 C48', 'crowddynamics.simulation.agents.BodyType._observe_radius')
def parts(self: 'obj:crowddynamics.simulation.agents.BodyType', change: 'any'):
    """the radii of the parts are their ratios of the radius"""
    name = change['name']
    if name == 'radius':
        if self.ratio_rt > 0:
            self.r_t = self.ratio_rt * self.radius
        if self.ratio_rs > 0:
            self.r_s = self.ratio_rs * self.radius
        if self.ratio_ts > 0:
            self.r_ts = self.ratio_ts * self.radius
    elif self.radius > 0:
        if name == 'ratio_rt':
            self.r_t = self.ratio_rt * self.radius
        elif name == 'ratio_rs':
            self.r_s = self.ratio_rs * self.radius
        elif name == 'ratio_ts':
            self.r_ts = self.ratio_ts * self.radius


@ref('C26', 'crowddynamics.simulation.agents.BodyType._observe_inertia_rot')
def inertia(self: 'obj:crowddynamics.simulation.agents.BodyType', change: 'any'):
    """the rotational moment scales with the mass and the square of the radius, 4 pi for 80 kg and 0.27 m"""
    if self.inertia_rot == 0 and self.mass > 0 and self.radius > 0:
        self.inertia_rot = 4 * np.pi * self.mass / 80 * (self.radius / 0.27) ** 2


@ref('C28 C46', 'crowddynamics.simulation.agents.AgentGroup._observe_members')
def members(self: 'obj:crowddynamics.simulation.agents.AgentGroup', change: 'any'):
    """a complete group has one member per set of attributes, drawn once; an unchanged group keeps its members"""
    config = (self.size, self.agent_type, self.attributes)
    if all(a is b for a, b in zip(config, self._config)):
        return
    self._config = config
    if self.size > 0 and self.attributes is not None and self.agent_type is not None:
        if isinstance(self.attributes, Collection):
            self.members = [self.agent_type(**a) for a in self.attributes]
        elif isinstance(self.attributes, Generator):
            self.members = [self.agent_type(**next(self.attributes)) for _ in range(self.size)]
        elif isinstance(self.attributes, Callable):
            self.members = [self.agent_type(**self.attributes()) for _ in range(self.size)]
        else:
            raise TraitError


@ref('C25', 'crowddynamics.simulation.agents.AgentType.dtype')
def row_type(cls: 'any'):
    """an agent's row has the fields of all of its traits but those describing its body type"""
    from crowddynamics.simulation.agents import BodyType
    return class_to_struct_dtype(cls, None, lambda c: c is BodyType)


@ref('C25', 'crowddynamics.simulation.agents.AgentType.__array__')
def row(self: 'obj:crowddynamics.simulation.agents.AgentType'):
    """the row of an agent holds the value of every field"""
    dtype = self.dtype()
    return np.array([tuple(getattr(self, f) for f in dtype.fields)], dtype=dtype)


@ref('C25', 'crowddynamics.simulation.agents.AgentType.from_array')
def from_row(self: 'obj:crowddynamics.simulation.agents.AgentType', array: 'any'):
    """every field of a single row is set on the agent"""
    if len(array) != 1:
        raise ValueError('Array should be length 1')
    for f, v in zip(array.dtype.fields, array.item()):
        setattr(self, f, v)


@ref('C25 C18 C19 C20 C22 C23 C24', 'crowddynamics.simulation.agents.is_model')
def same_model(agents: 'any', model: 'any'):
    """agents are of the model whose row type is theirs"""
    from crowddynamics.simulation.agents import AgentModelToType
    return hash(agents.dtype) == hash(AgentModelToType[model])
