"""Following leaders and neighbours."""
import numpy as np
from cell_lists import add_to_cells, neighboring_cells, iter_nearest_neighbors
from crowddynamics.core.vector2D import length, normalize, dot, weighted_average

NOBODY = -1


@ref('C36', 'crowddynamics.core.steering.collective_motion.normalize_nx2')
def unit_rows(v: 'arr:vec2@n'):
    """every direction is normalised by itself"""
    out = np.zeros_like(v)
    for i in range(len(v)):
        out[i] = normalize(v[i])
    return out


@ref('C36', 'crowddynamics.core.steering.collective_motion.herding_relationship')
def relation(x1: 'vec2', x2: 'vec2', v1: 'vec2', v2: 'vec2', phi: 'real' = np.pi / 2):
    """an agent is heading away unless it moves towards the other within the angle; standing agents have no relation"""
    if length(v1) == 0 or length(v2) == 0:
        return False, False
    e = normalize(x2 - x1)
    c = np.cos(phi)
    towards1 = dot(e, normalize(v1)) > c
    towards2 = dot(-e, normalize(v2)) > c
    return not towards2, not towards1


@ref('C36', 'crowddynamics.core.steering.collective_motion.set_neighbor')
def replace_furthest(i: 'int', j: 'int', l: 'real', neighbors: 'arr2:int@n', distances: 'arr2:real@n', distances_max: 'arr:real@n'):
    """a nearer neighbour takes the place of the furthest one"""
    k = np.argmax(distances[i, :])
    distances[i, k] = l
    neighbors[i, k] = j
    distances_max[i] = np.max(distances[i, :])


@ref('C36', 'crowddynamics.core.steering.collective_motion.find_nearest_neighbors')
def nearest(position: 'arr:vec2@n', sight: 'real', size_nearest_other: 'int', cell_indices: 'any', neigh_cells: 'any',
            points_indices: 'any', cells_count: 'any', cells_offset: 'any', obstacles: 'recs:obstacles'):
    """the nearest other agents in sight that no wall hides, at most so many"""
    from crowddynamics.core.sensory_region import is_obstacle_between_points
    from crowddynamics.core.steering.collective_motion import set_neighbor
    n = len(position)
    who = np.full((n, size_nearest_other), NOBODY, dtype=np.int64)
    dist = np.full((n, size_nearest_other), sight, dtype=np.float64)
    furthest = np.full(n, sight, dtype=np.float64)
    for i, j in iter_nearest_neighbors(cell_indices, neigh_cells, points_indices, cells_count, cells_offset):
        if not is_obstacle_between_points(position[i], position[j], obstacles):
            l = length(position[i] - position[j])
            if l < furthest[i]:
                set_neighbor(i, j, l, who, dist, furthest)
            if l < furthest[j]:
                set_neighbor(j, i, l, who, dist, furthest)
    return who


@ref('C36', 'crowddynamics.core.steering.collective_motion.herding_interaction')
def herd(is_herding: 'arr:bool@n', position: 'arr:vec2@n', velocity: 'arr:vec2@n', neighbors: 'arr2:int@n', weight_position: 'real', phi: 'real'):
    """herding agents turn to the mean position and mean direction of the neighbours that do not come towards them"""
    from crowddynamics.core.steering.collective_motion import herding_relationship
    direction = np.zeros_like(position)
    found = np.zeros(position.shape[0], dtype=np.bool_)
    for i in range(position.shape[0]):
        if is_herding[i]:
            n = 0
            x = np.zeros(2)
            v = np.zeros(2)
            for j in neighbors[i, :]:
                if j != NOBODY and herding_relationship(position[i], position[j], velocity[i], velocity[j], phi)[0]:
                    x += position[j]
                    v += velocity[j]
                    n += 1
            if n > 0:
                direction[i] = normalize(weighted_average(normalize(x / n - position[i]), normalize(v), weight_position))
                found[i] = True
    return direction, found


@ref('C36', 'crowddynamics.core.steering.collective_motion.leader_follower_interaction_brute')
def follow(is_follower: 'arr:bool@n', is_leader: 'arr:bool@n', position: 'arr:vec2@n', velocity: 'arr:vec2@n', weight_position: 'real',
           phi: 'real', target: 'arr:int@n', index_leader: 'arr:int@n', obstacles: 'recs:obstacles', sight: 'real'):
    """followers take the nearest leader in sight that does not come towards them; a leader lost from sight passes on its target"""
    from crowddynamics.core.sensory_region import is_obstacle_between_points
    from crowddynamics.core.steering.collective_motion import herding_relationship
    decided = np.zeros(len(position), dtype=np.bool_)
    direction = np.zeros_like(position)
    everyone = np.arange(len(position))
    leaders = everyone[is_leader]
    away = np.zeros(leaders.shape, dtype=np.float64)
    for i in everyone[is_follower]:
        hidden = 0
        seen = 0
        for k, j in enumerate(leaders):
            away[k] = length(position[i] - position[j])
        for k in np.argsort(away):
            if away[k] > sight:
                continue
            j = leaders[k]
            if is_obstacle_between_points(position[i], position[j], obstacles):
                mine = index_leader[i]
                if mine != NOBODY and mine == j:
                    hidden += 1
                    target[i] = target[mine]
                    decided[i] = True
                    break
            else:
                goes, _ = herding_relationship(position[i], position[j], velocity[i], velocity[j], phi)
                if goes:
                    seen += 1
                    index_leader[i] = j
                    target[i] = NOBODY
                    direction[i, :] = normalize(weighted_average(normalize(position[j] - position[i]), normalize(velocity[j]), weight_position))
                    decided[i] = True
                    break
        if hidden == 0 and seen == 0:
            mine = index_leader[i]
            if mine != NOBODY:
                target[i] = target[mine]
                decided[i] = True
    return direction, decided


@ref('C36', 'crowddynamics.core.steering.collective_motion.leader_follower_interaction')
def lead(agents: 'recs:agents', obstacles: 'recs:obstacles', sight: 'real', phi: 'real' = 0.45 * np.pi, weight_position_leader: 'real' = 0.4):
    """followers without a leader head for their familiar exit"""
    from crowddynamics.core.steering.collective_motion import leader_follower_interaction_brute
    direction, decided = leader_follower_interaction_brute(
        agents['is_follower'], agents['is_leader'], agents['position'], agents['velocity'], weight_position_leader, phi,
        agents['target'], agents['index_leader'], obstacles, sight)
    lost = np.logical_and(np.logical_not(decided), agents['is_follower'])
    agents['target'][lost] = agents['familiar_exit'][lost]
    return direction


@ref('C36', 'crowddynamics.core.steering.collective_motion.leader_follower_with_herding_interaction')
def lead_and_herd(agents: 'recs:agents', obstacles: 'recs:obstacles', sight: 'real', size_nearest_other: 'int', phi: 'real' = 0.45 * np.pi,
                  weight_position_herding: 'real' = 0.15, weight_position_leader: 'real' = 0.4, weight_direction_leader: 'real' = 0.65):
    """followers mix the direction to their leader with that of the herd; without either they head for their familiar exit"""
    from crowddynamics.core.steering.collective_motion import find_nearest_neighbors, herding_interaction, leader_follower_interaction_brute, normalize_nx2
    points_indices, cells_count, cells_offset, grid_shape = add_to_cells(agents['position'], sight)
    neighbors = find_nearest_neighbors(
        agents['position'], sight, size_nearest_other, np.arange(len(cells_count)), neighboring_cells(grid_shape),
        points_indices, cells_count, cells_offset, obstacles)
    herd_dir, has_herd = herding_interaction(agents['is_follower'], agents['position'], agents['velocity'], neighbors, weight_position_herding, phi)
    agents['target'][has_herd] = NOBODY
    lead_dir, has_leader = leader_follower_interaction_brute(
        agents['is_follower'], agents['is_leader'], agents['position'], agents['velocity'], weight_position_leader, phi,
        agents['target'], agents['index_leader'], obstacles, 20.0)
    lost = np.logical_and(np.logical_not(np.logical_or(has_herd, has_leader)), agents['is_follower'])
    agents['target'][lost] = agents['familiar_exit'][lost]
    return normalize_nx2(weighted_average(lead_dir, herd_dir, weight_direction_leader))


@ref('C36', 'crowddynamics.simulation.logic.LeaderFollower.update', attrs={'array': 'recs:agents'}, again='simulation.field.obstacles simulation.field.targets simulation.field.domain simulation.agents.array')
def follow_node(self: 'obj:crowddynamics.simulation.logic.LeaderFollower'):
    """only followers take the direction of following"""
    from crowddynamics.core.geometry import geom_to_linear_obstacles
    from crowddynamics.core.steering.collective_motion import leader_follower_interaction
    agents = self.simulation.agents.array
    walls = geom_to_linear_obstacles(self.simulation.field.obstacles)
    direction = leader_follower_interaction(agents, walls, self.sight)
    agents['target_direction'][agents['is_follower']] = direction[agents['is_follower']]


@ref('C36', 'crowddynamics.simulation.logic.LeaderFollowerWithHerding.update', attrs={'array': 'recs:agents'}, again='simulation.field.obstacles simulation.field.targets simulation.field.domain simulation.agents.array')
def herd_node(self: 'obj:crowddynamics.simulation.logic.LeaderFollowerWithHerding'):
    """only followers take the direction of following"""
    from crowddynamics.core.geometry import geom_to_linear_obstacles
    from crowddynamics.core.steering.collective_motion import leader_follower_with_herding_interaction
    agents = self.simulation.agents.array
    walls = geom_to_linear_obstacles(self.simulation.field.obstacles)
    direction = leader_follower_with_herding_interaction(agents, walls, self.sight_follower, self.size_nearest_other)
    agents['target_direction'][agents['is_follower']] = direction[agents['is_follower']]
