"""Geometry of the shipped fields, and the people and fields of the shipped simulations."""
import numpy as np
from shapely.geometry import Polygon, LineString, Point
from shapely.geometry.base import BaseGeometry

from crowddynamics.examples import fields
from crowddynamics.core.geometry import geom_to_linear_obstacles
from crowddynamics.core.vector2D import unit_vector
from crowddynamics.simulation.agents import Agents, AgentGroup, NO_TARGET

X = 'crowddynamics.examples.fields.'


@ref('C45', 'crowddynamics.examples.fields.rectangle')
def box(x: 'real', y: 'real', width: 'real', height: 'real'):
    """the rectangle of that width and height whose lower left corner is (x, y)"""
    return Polygon([(x, y), (x + width, y), (x + width, y + height), (x, y + height)])


@ref('C45', 'crowddynamics.examples.fields.OutdoorField._default_domain')
def outdoor_domain(self: 'obj:crowddynamics.examples.fields.OutdoorField'):
    """all of width by height"""
    return Polygon([(0, 0), (0, self.height), (self.width, self.height), (self.width, 0)])


@ref('C45', 'crowddynamics.examples.fields.OutdoorField._default_spawns')
def outdoor_spawns(self: 'obj:crowddynamics.examples.fields.OutdoorField'):
    """agents are placed anywhere in the domain"""
    return [self.domain]


@ref('C45', 'crowddynamics.examples.fields.OutdoorField._observe_field')
def outdoor_resized(self: 'obj:crowddynamics.examples.fields.OutdoorField', change: 'any'):
    """a resized field is the field of that size"""
    d = Polygon([(0, 0), (0, self.height), (self.width, self.height), (self.width, 0)])
    self.domain = d
    self.spawns = [d]


def hall_walls(w, h):
    return LineString([(0, 0), (w, 0)]) | LineString([(0, h), (w, h)])


def hall_ends(w, h):
    return [LineString([(0, 0), (0, h)]), LineString([(w, 0), (w, h)])]


def hall_spawns(w, h, r):
    return [box(0, 0, r * w, h), box((1 - r) * w, 0, r * w, h)]


@ref('C45', 'crowddynamics.examples.fields.HallwayField._default_obstacles')
def hall_obstacles(self: 'obj:crowddynamics.examples.fields.HallwayField'):
    """walls along both sides of the hallway, none across it"""
    return hall_walls(self.width, self.height)


@ref('C45', 'crowddynamics.examples.fields.HallwayField._default_targets')
def hall_targets(self: 'obj:crowddynamics.examples.fields.HallwayField'):
    """both open ends are targets, left one first"""
    return hall_ends(self.width, self.height)


@ref('C45', 'crowddynamics.examples.fields.HallwayField._default_spawns')
def hall_starts(self: 'obj:crowddynamics.examples.fields.HallwayField'):
    """agents start in the given share of the hallway at its left and its right end"""
    return hall_spawns(self.width, self.height, self.ratio)


@ref('C45', 'crowddynamics.examples.fields.HallwayField._default_domain')
def hall_domain(self: 'obj:crowddynamics.examples.fields.HallwayField'):
    """the domain is everything the walls and ends enclose"""
    return self.convex_hull()


@ref('C45', 'crowddynamics.examples.fields.HallwayField._observe_field')
def hall_resized(self: 'obj:crowddynamics.examples.fields.HallwayField', change: 'any'):
    """a resized hallway is the hallway of that size"""
    self.obstacles = hall_walls(self.width, self.height)
    self.spawns = hall_spawns(self.width, self.height, self.ratio)
    self.targets = hall_ends(self.width, self.height)
    self.domain = self.convex_hull()


@ref('C45', 'crowddynamics.examples.fields.Rounding.__init__')
def rounding(self: 'obj:crowddynamics.examples.fields.Rounding', *args, **kwargs):
    """a room whose middle wall leaves a passage on the right; the upper half of the left side is the only exit and
    agents start in the lower left quarter"""
    super().__init__(*args, **kwargs)
    w, h = self.width, self.height
    room = Polygon([(0, 0), (0, h), (w, h), (w, 0)])
    gate = LineString([(0, h / 2), (0, h)])
    self.obstacles = LineString([(0, h / 2), (w * self.ratio, h / 2)]) | (room.exterior - gate)
    self.targets = [gate]
    self.spawns = [Polygon([(0, 0), (0, h / 2), (w / 2, h / 2), (w / 2, 0)])]
    self.domain = room


@ref('C45', 'crowddynamics.examples.fields.AvoidObstacle.__init__')
def avoid_obstacle(self: 'obj:crowddynamics.examples.fields.AvoidObstacle', *args, **kwargs):
    """a room with an exit at the bottom of its right side behind a wall over its lower half; leaders start in the upper
    half in front of the wall, followers anywhere in front of it"""
    super().__init__(*args, **kwargs)
    w, h, b = self.width, self.height, self.ratio_obs * self.width
    room = box(0, 0, w, h)
    gate = LineString([(w, 0), (w, self.exit_width)])
    self.obstacles = (room.exterior - gate) | LineString([(b, 0), (b, 0.5 * h)])
    self.targets = [gate]
    self.spawns = [box(0, 0.5 * h, b, 0.5 * h), box(0, 0, b, h)]
    self.domain = room


@ref('C45', 'crowddynamics.examples.fields.ClosedRoom.__init__')
def closed_room(self: 'obj:crowddynamics.examples.fields.ClosedRoom', *args, **kwargs):
    """walls all around, nothing else"""
    super().__init__(*args, **kwargs)
    room = Polygon([(0, 0), (0, self.height), (self.width, self.height), (self.width, 0)])
    self.obstacles = room.exterior
    self.spawns = [room]
    self.domain = room


@ref('C45', 'crowddynamics.examples.fields.RoomWithOneExit.__init__')
def one_exit(self: 'obj:crowddynamics.examples.fields.RoomWithOneExit', *args, **kwargs):
    """a room open on the right, closed there by two walls as thick as the exit hall is long that leave a gap of the exit
    width in the middle; the end of the hall is the target and agents start in the room"""
    super().__init__(*args, **kwargs)
    w, h, e, d = self.width, self.height, self.exit_width, self.exit_hall_width
    self.room = LineString([(w, 0), (0, 0), (0, h), (w, h)])
    self.hall = box(w, (h + e) / 2, d, (h - e) / 2) | box(w, 0, d, (h - e) / 2)
    self.obstacles = self.room | self.hall
    self.targets = [LineString([(w + d, (h - e) / 2), (w + d, (h + e) / 2)])]
    self.spawns = [self.room.convex_hull]
    self.domain = self.convex_hull()


@ref('C45', 'crowddynamics.examples.fields.FourExitsField.__init__')
def four_exits(self: 'obj:crowddynamics.examples.fields.FourExitsField', *args, **kwargs):
    """every gap the outer walls leave is exactly one target of the exit width"""
    super().__init__(*args, **kwargs)
    e = self.exit_width
    o = BaseGeometry()
    o |= LineString([(0, 10), (0, 0), (87, 0)])
    o |= LineString([(20, 0), (20, 40)])
    o |= LineString([(20, 20), (40, 20)])
    o |= LineString([(60, 0), (60, 20)])
    o |= LineString([(0, 10 + e), (0, 80), (6, 80)])
    o |= LineString([(0, 60), (40, 60)])
    o |= LineString([(6 + e, 80), (100, 80), (100, 50 + e)])
    o |= LineString([(100, 60), (60, 60)])
    o |= LineString([(70, 60), (70, 40)])
    o |= LineString([(100, 50), (100, 0), (87 + e, 0)])
    self.obstacles = o
    self.targets = [LineString([(0, 10), (0, 10 + e)]), LineString([(6, 80), (6 + e, 80)]),
                    LineString([(100, 50 + e), (100, 50)]), LineString([(87, 0), (87 + e, 0)])]
    self.spawns = [o.convex_hull]
    self.domain = self.convex_hull()


def pillar_as_found(self, *args, **kwargs):
    """the defect listed in known_findings.json: the domain is the upper right of the centre"""
    super().__init__(*args, **kwargs)
    room = box(self.width / 2, self.height / 2, self.width / 2, self.height / 2)
    self.domain = room
    self.obstacles = Point(0, 0).buffer(self.radius_pillar)
    self.spawns = [room]


@ref('C45', 'crowddynamics.examples.fields.PillarInTheMiddle.__init__', found='pillar_as_found')
def pillar(self: 'obj:crowddynamics.examples.fields.PillarInTheMiddle', *args, **kwargs):
    """a round pillar at the centre of the domain"""
    super().__init__(*args, **kwargs)
    room = box(-self.width / 2, -self.height / 2, self.width, self.height)
    self.domain = room
    self.obstacles = Point(0, 0).buffer(self.radius_pillar)
    self.spawns = [room]


def heading(self, orientation, **more):
    d = dict(body_type=self.body_type, orientation=orientation, velocity=unit_vector(orientation), angular_velocity=0.0,
             target_direction=unit_vector(orientation), target_orientation=orientation)
    d.update(more)
    return d


def people(self, *groups):
    """groups of (size, attributes, maker of positions, whether they keep clear of the walls)"""
    agents = Agents(agent_type=self.agent_type)
    for size, attributes, spawn, walls in groups:
        group = AgentGroup(agent_type=self.agent_type, size=size, attributes=attributes)
        place = spawn()
        if not walls:
            agents.add_non_overlapping_group(group, position_gen=place)
        else:
            agents.add_non_overlapping_group(group, position_gen=place, obstacles=geom_to_linear_obstacles(self.field.obstacles))
    return agents


def walking(self, o, speed, more):
    """heading in one direction at that speed"""
    d = dict(body_type=self.body_type, orientation=o, velocity=speed * unit_vector(o), angular_velocity=0.0,
             target_direction=unit_vector(o), target_orientation=o)
    d.update(more)
    return d


def standing(self, o, more):
    """turned somewhere, standing still"""
    d = dict(body_type=self.body_type, orientation=o, velocity=np.zeros(2), angular_velocity=0.0, target_direction=np.zeros(2),
             target_orientation=o)
    d.update(more)
    return d


@ref('C46', 'crowddynamics.examples.simulations.Outdoor.attributes')
def outdoor_member(self: 'obj:crowddynamics.examples.simulations.Outdoor'):
    """walks in a direction drawn for it"""
    o = np.random.uniform(-np.pi, np.pi)
    return walking(self, o, 1.0, {})


@ref('C46', 'crowddynamics.examples.simulations.Outdoor._default_agents')
def outdoor_people(self: 'obj:crowddynamics.examples.simulations.Outdoor'):
    """the given number of agents, spread over the field"""
    return people(self, (self.size, self.attributes, lambda: self.field.sample_spawn(0), False))


@ref('C46', 'crowddynamics.examples.simulations.Hallway.attributes1')
def hall_right(self: 'obj:crowddynamics.examples.simulations.Hallway'):
    """those from the left walk right, to the right end"""
    return walking(self, 0.0, 1, dict(target=1))


@ref('C46', 'crowddynamics.examples.simulations.Hallway.attributes2')
def hall_left(self: 'obj:crowddynamics.examples.simulations.Hallway'):
    """those from the right walk left, to the left end"""
    return walking(self, np.pi, 1, dict(target=0))


@ref('C46', 'crowddynamics.examples.simulations.Hallway._default_agents')
def hall_people(self: 'obj:crowddynamics.examples.simulations.Hallway'):
    """half of the agents start at each end, towards the other"""
    return people(self, (self.size // 2, self.attributes1, lambda: self.field.sample_spawn(0), False),
                  (self.size // 2, self.attributes2, lambda: self.field.sample_spawn(1), False))


@ref('C46', 'crowddynamics.examples.simulations.RoomWithOneExit.attributes')
def room_member(self: 'obj:crowddynamics.examples.simulations.RoomWithOneExit'):
    """everyone heads for the only exit"""
    return walking(self, 0.0, 1.0, dict(target=0))


@ref('C46', 'crowddynamics.examples.simulations.RoomWithOneExit._default_agents')
def room_people(self: 'obj:crowddynamics.examples.simulations.RoomWithOneExit'):
    """the given number of agents, spread over the room"""
    return people(self, (self.size, self.attributes, lambda: self.field.sample_spawn(0), False))


@ref('C46', 'crowddynamics.examples.simulations.FourExitsRandomPlacing.attributes')
def exits_members(self: 'obj:crowddynamics.examples.simulations.FourExitsRandomPlacing'):
    """every member draws its exit, its orientation and the exit it is familiar with, in that order"""
    def wrapper():
        target = np.random.randint(0, len(self.field.targets))
        o = np.random.uniform(-np.pi, np.pi)
        return standing(self, o, dict(target=target, familiar_exit=np.random.randint(0, len(self.field.targets))))
    return wrapper


@ref('C46', 'crowddynamics.examples.simulations.FourExitsRandomPlacing._default_agents')
def exits_people(self: 'obj:crowddynamics.examples.simulations.FourExitsRandomPlacing'):
    """the given number of agents, clear of the walls"""
    return people(self, (self.size, self.attributes(), lambda: self.field.sample_spawn(0), True))


@ref('C46', 'crowddynamics.examples.collective_motion.Outdoor.attributes')
def followed_members(self: 'obj:crowddynamics.examples.collective_motion.Outdoor', is_leader: 'bool'):
    """members are leaders or followers, walking in their own direction"""
    def wrapper():
        o = 0.0 if is_leader else np.random.uniform(-np.pi, np.pi)
        return walking(self, o, 1.0, dict(is_leader=is_leader, is_follower=not is_leader))
    return wrapper


@ref('C46', 'crowddynamics.examples.collective_motion.ClosedRoom.attributes')
def closed_members(self: 'obj:crowddynamics.examples.collective_motion.ClosedRoom', is_leader: 'bool'):
    """members are leaders or followers, walking in their own direction"""
    def wrapper():
        o = np.random.uniform(-np.pi, np.pi)
        return walking(self, o, 1.0, dict(is_leader=is_leader, is_follower=not is_leader))
    return wrapper


@ref('C46', 'crowddynamics.examples.collective_motion.Outdoor._default_agents')
def followed_people(self: 'obj:crowddynamics.examples.collective_motion.Outdoor'):
    """leaders at the given place, followers anywhere"""
    return people(self, (self.size_leaders, self.attributes(is_leader=True),
                         lambda: lambda: np.array((self.horizontal_ratio * self.width, self.vertical_ratio * self.height)), False),
                  (self.size_herding, self.attributes(is_leader=False), lambda: self.field.sample_spawn(0), False))


@ref('C46', 'crowddynamics.examples.collective_motion.ClosedRoom._default_agents')
def closed_people(self: 'obj:crowddynamics.examples.collective_motion.ClosedRoom'):
    """leaders and followers anywhere in the room"""
    return people(self, (self.size_leaders, self.attributes(is_leader=True), lambda: self.field.sample_spawn(0), False),
                  (self.size_herding, self.attributes(is_leader=False), lambda: self.field.sample_spawn(0), False))


@ref('C46', 'crowddynamics.examples.collective_motion.Rounding.attributes')
def rounding_members(self: 'obj:crowddynamics.examples.collective_motion.Rounding', has_target: 'bool' = True, is_follower: 'bool' = False):
    """leaders head for a target of the field drawn for each, followers for none"""
    def wrapper():
        drawn = np.random.randint(0, len(self.field.targets))
        o = np.random.uniform(-np.pi, np.pi)
        return standing(self, o, dict(target=drawn if has_target else NO_TARGET, is_leader=not is_follower, is_follower=is_follower))
    return wrapper


@ref('C46', 'crowddynamics.examples.collective_motion.Rounding._default_agents')
def rounding_people(self: 'obj:crowddynamics.examples.collective_motion.Rounding'):
    """leaders, then followers, clear of the walls"""
    return people(self, (self.size_leaders, self.attributes(has_target=True, is_follower=False), lambda: self.field.sample_spawn(0), True),
                  (self.size_herding, self.attributes(has_target=False, is_follower=True), lambda: self.field.sample_spawn(0), True))


@ref('C46', 'crowddynamics.examples.collective_motion.AvoidObstacle.attributes')
def avoiding_members(self: 'obj:crowddynamics.examples.collective_motion.AvoidObstacle', has_target: 'bool' = True, is_follower: 'bool' = False):
    """leaders head for a target of the field drawn for each, followers for none"""
    def wrapper():
        drawn = np.random.randint(0, len(self.field.targets))
        o = np.random.uniform(-np.pi, np.pi)
        return standing(self, o, dict(target=drawn if has_target else NO_TARGET, is_leader=not is_follower, is_follower=is_follower))
    return wrapper


@ref('C46', 'crowddynamics.examples.collective_motion.AvoidObstacle._default_agents')
def avoiding_people(self: 'obj:crowddynamics.examples.collective_motion.AvoidObstacle'):
    """leaders, then followers, clear of the walls"""
    return people(self, (self.size_leaders, self.attributes(has_target=True, is_follower=False), lambda: self.field.sample_spawn(0), True),
                  (self.size_herding, self.attributes(has_target=False, is_follower=True), lambda: self.field.sample_spawn(1), True))


@ref('C46', 'crowddynamics.examples.collective_motion.FourExitsRandomPlacing.attributes')
def mixed_members(self: 'obj:crowddynamics.examples.collective_motion.FourExitsRandomPlacing', has_target: 'bool' = True, is_follower: 'bool' = False):
    """leaders head for a target of the field drawn for each, followers for none"""
    def wrapper():
        drawn = np.random.randint(0, len(self.field.targets))
        o = np.random.uniform(-np.pi, np.pi)
        return standing(self, o, dict(target=drawn if has_target else NO_TARGET, is_leader=not is_follower, is_follower=is_follower, familiar_exit=np.random.randint(0, len(self.field.targets))))
    return wrapper


@ref('C46', 'crowddynamics.examples.collective_motion.FourExitsRandomPlacing._default_agents')
def mixed_people(self: 'obj:crowddynamics.examples.collective_motion.FourExitsRandomPlacing'):
    """leaders, then followers, clear of the walls"""
    return people(self, (self.size_leaders, self.attributes(has_target=True, is_follower=False), lambda: self.field.sample_spawn(0), True),
                  (self.size_herding, self.attributes(has_target=False, is_follower=True), lambda: self.field.sample_spawn(0), True))


@ref('C46', 'crowddynamics.examples.collective_motion.FourExitsFixedPlacing.attributes')
def fixed_members(self: 'obj:crowddynamics.examples.collective_motion.FourExitsFixedPlacing', target: 'int' = NO_TARGET, is_follower: 'bool' = False):
    """leaders head for their own exit, followers for none"""
    def wrapper():
        o = np.random.uniform(-np.pi, np.pi)
        return standing(self, o, dict(target=target, is_leader=not is_follower, is_follower=is_follower,
                                      familiar_exit=np.random.randint(0, len(self.field.targets))))
    return wrapper


@ref('C46', 'crowddynamics.examples.collective_motion.FourExitsFixedPlacing._default_agents')
def fixed_people(self: 'obj:crowddynamics.examples.collective_motion.FourExitsFixedPlacing'):
    """every leader starts in its own spawn and heads for its own exit, followers start anywhere"""
    walls = geom_to_linear_obstacles(self.field.obstacles)
    self.field.spawns.extend([box(25, 45, 10, 10), box(80, 65, 10, 10), box(75, 35, 10, 10), box(35, 5, 10, 10)])
    agents = Agents(agent_type=self.agent_type)
    for i in range(self.size_leaders):
        one = AgentGroup(agent_type=self.agent_type, size=1, attributes=self.attributes(target=i, is_follower=False))
        agents.add_non_overlapping_group(one, position_gen=self.field.sample_spawn(i + 1), obstacles=walls)
    rest = AgentGroup(agent_type=self.agent_type, size=self.size_herding, attributes=self.attributes(target=NO_TARGET, is_follower=True))
    agents.add_non_overlapping_group(rest, position_gen=self.field.sample_spawn(0), obstacles=walls)
    return agents


@ref('C46', 'crowddynamics.examples.validation.TestMovement.attributes')
def test_mov_member(self: 'obj:crowddynamics.examples.validation.TestMovement', orientation: 'real' = 0.0):
    """a body of fixed measures walking in the given direction"""
    o = orientation
    return dict(ratio_rt=0.5882, ratio_rs=0.3725, ratio_ts=0.6275, radius=0.255, target_velocity=1.0, mass=73.5, orientation=o,
                velocity=unit_vector(o), angular_velocity=0.0, target_direction=unit_vector(o), target_orientation=o)


@ref('C46', 'crowddynamics.examples.validation.TestAgentInteraction.attributes')
def test_age_member(self: 'obj:crowddynamics.examples.validation.TestAgentInteraction', orientation: 'real' = 0.0):
    """a body of fixed measures walking in the given direction"""
    o = orientation
    return dict(ratio_rt=0.5882, ratio_rs=0.3725, ratio_ts=0.6275, radius=0.255, target_velocity=1.0, mass=73.5, orientation=o,
                velocity=unit_vector(o), angular_velocity=0.0, target_direction=unit_vector(o), target_orientation=o)


@ref('C46', 'crowddynamics.examples.simulations.Outdoor._default_field')
def outdoor_field(self: 'obj:crowddynamics.examples.simulations.Outdoor'):
    """the field has the size and openings given to the simulation"""
    return fields.OutdoorField(width=self.width, height=self.height)


@ref('C46', 'crowddynamics.examples.simulations.Hallway._default_field')
def hall_field(self: 'obj:crowddynamics.examples.simulations.Hallway'):
    """the field has the size and openings given to the simulation"""
    return fields.HallwayField(width=self.width, height=self.height, ratio=self.ratio)


@ref('C46', 'crowddynamics.examples.simulations.RoomWithOneExit._default_field')
def room_field(self: 'obj:crowddynamics.examples.simulations.RoomWithOneExit'):
    """the field has the size and openings given to the simulation"""
    return fields.RoomWithOneExit(width=self.width, height=self.height, exit_width=self.exit_width, exit_hall_width=self.exit_hall_width)


@ref('C46', 'crowddynamics.examples.simulations.FourExitsRandomPlacing._default_field')
def exits_field(self: 'obj:crowddynamics.examples.simulations.FourExitsRandomPlacing'):
    """the field has the size and openings given to the simulation"""
    return fields.FourExitsField(exit_width=self.exit_width)


@ref('C46', 'crowddynamics.examples.collective_motion.Outdoor._default_field')
def followed_field(self: 'obj:crowddynamics.examples.collective_motion.Outdoor'):
    """the field has the size and openings given to the simulation"""
    return fields.OutdoorField(width=self.width, height=self.height)


@ref('C46', 'crowddynamics.examples.collective_motion.Rounding._default_field')
def rounding_field(self: 'obj:crowddynamics.examples.collective_motion.Rounding'):
    """the field has the size and openings given to the simulation"""
    return fields.Rounding(width=self.width, height=self.height)


@ref('C46', 'crowddynamics.examples.collective_motion.AvoidObstacle._default_field')
def avoiding_field(self: 'obj:crowddynamics.examples.collective_motion.AvoidObstacle'):
    """the field has the size and openings given to the simulation"""
    return fields.AvoidObstacle(width=self.width, height=self.height, exit_width=self.exit_width, ratio_obs=self.ratio_obs)


@ref('C46', 'crowddynamics.examples.collective_motion.ClosedRoom._default_field')
def closed_field(self: 'obj:crowddynamics.examples.collective_motion.ClosedRoom'):
    """the field has the size and openings given to the simulation"""
    return fields.ClosedRoom(width=self.width, height=self.height)


@ref('C46', 'crowddynamics.examples.collective_motion.AroundCircle._default_field')
def circling_field(self: 'obj:crowddynamics.examples.collective_motion.AroundCircle'):
    """the field has the size and openings given to the simulation"""
    return fields.PillarInTheMiddle(width=self.width, height=self.height, radius_pillar=self.radius_pillar)


@ref('C46', 'crowddynamics.examples.collective_motion.FourExitsRandomPlacing._default_field')
def mixed_field(self: 'obj:crowddynamics.examples.collective_motion.FourExitsRandomPlacing'):
    """the field has the size and openings given to the simulation"""
    return fields.FourExitsField(exit_width=self.exit_width)


@ref('C46', 'crowddynamics.examples.collective_motion.FourExitsFixedPlacing._default_field')
def fixed_field(self: 'obj:crowddynamics.examples.collective_motion.FourExitsFixedPlacing'):
    """the field has the size and openings given to the simulation"""
    return fields.FourExitsField(exit_width=self.exit_width)


@ref('C46', 'crowddynamics.examples.validation.TestMovement._default_field')
def moving_field(self: 'obj:crowddynamics.examples.validation.TestMovement'):
    """the field has the size and openings given to the simulation"""
    return fields.OutdoorField(width=self.width, height=self.height)


@ref('C46', 'crowddynamics.examples.validation.TestAgentInteraction._default_field')
def meeting_field(self: 'obj:crowddynamics.examples.validation.TestAgentInteraction'):
    """the field has the size and openings given to the simulation"""
    return fields.OutdoorField(width=self.width, height=self.height)
