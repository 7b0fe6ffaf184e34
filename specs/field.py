"""Geometry, grids, maps and lookups that steer agents."""
from functools import reduce
from itertools import chain

import numpy as np
import shapely.geometry as geometry
import skimage.draw
import skfmm
from scipy.interpolate import NearestNDInterpolator
from shapely.geometry.base import BaseMultipartGeometry
from skimage.segmentation import find_boundaries

from crowddynamics.core.structures import obstacle_type_linear
from crowddynamics.core.steering import quickest_path as qp
from crowddynamics.core.vector2D import normalize


@ref('C29 C24 C35 C36', 'crowddynamics.core.geometry.geom_to_linesegment')
def segments(geom: 'any'):
    """consecutive vertices of lines and of all rings of polygons, parts in order; points have none"""
    if isinstance(geom, geometry.Point):
        return iter(())
    if isinstance(geom, geometry.LineString):
        return zip(geom.coords[:-1], geom.coords[1:])
    if isinstance(geom, geometry.Polygon):
        return chain.from_iterable(zip(ring.coords[:-1], ring.coords[1:]) for ring in chain([geom.exterior], geom.interiors))
    if isinstance(geom, BaseMultipartGeometry):
        return chain.from_iterable(segments(g) for g in geom)
    raise TypeError


@ref('C29 C24 C35 C36', 'crowddynamics.core.geometry.geom_to_linear_obstacles')
def walls(geom: 'any'):
    """one record per segment, in order; no geometry has no walls"""
    from crowddynamics.core.geometry import geom_to_linesegment
    found = []
    if geom is not None:
        found = list(geom_to_linesegment(geom))
    return np.array(found, dtype=obstacle_type_linear)


@ref('C29', 'crowddynamics.core.geometry.geom_to_array')
def blocks(geom: 'any'):
    """every part is announced by a row (nan, kind) and followed by its vertices"""
    from crowddynamics.core.geometry import _geom_to_array
    return np.concatenate(list(_geom_to_array(geom)))


@ref('C29', 'crowddynamics.core.geometry._geom_to_array', optional=True)
def parts(geom: 'any'):
    """the same, part by part"""
    if isinstance(geom, geometry.Point):
        yield np.array([(np.nan, 0.0)])
        yield np.asarray(geom.coords)
    elif isinstance(geom, geometry.LineString):
        yield np.array([(np.nan, 1.0)])
        yield np.asarray(geom.coords)
    elif isinstance(geom, geometry.Polygon):
        for hole in geom.interiors:
            yield np.array([(np.nan, 2.0)])
            yield np.asarray(hole)
        yield np.array([(np.nan, 3.0)])
        yield np.asarray(geom.exterior)
    elif isinstance(geom, BaseMultipartGeometry):
        for g in geom:
            yield from parts(g)
    else:
        raise TypeError


@ref('C29 C45', 'crowddynamics.core.geometry.union')
def together(*geoms):
    """union of all"""
    return reduce(lambda x, y: x | y, geoms)


@ref('C29 C31', 'crowddynamics.core.geometry.draw_geom')
def draw(geom: 'any', grid: 'any', indicer: 'any', value: 'any'):
    """cells under lines, and under polygons with their outline, get the value; holes are cleared; indices are (y, x)"""
    from crowddynamics.core.geometry import geom_to_linesegment
    if isinstance(geom, geometry.Point):
        return
    if isinstance(geom, geometry.LineString):
        for line in geom_to_linesegment(geom):
            r0, c0, r1, c1 = indicer(line).flatten()
            x, y = skimage.draw.line(r0, c0, r1, c1)
            grid[y, x] = value
    elif isinstance(geom, geometry.Polygon):
        i = indicer(geom.exterior)
        x, y = skimage.draw.polygon(i[:, 0], i[:, 1])
        grid[y, x] = value
        x, y = skimage.draw.polygon_perimeter(i[:, 0], i[:, 1])
        grid[y, x] = value
        for hole in geom.interiors:
            j = indicer(hole)
            x, y = skimage.draw.polygon(j[:, 0], j[:, 1])
            grid[y, x] = 0
    elif isinstance(geom, BaseMultipartGeometry):
        for part in geom:
            draw(part, grid, indicer, value)
    else:
        raise TypeError


@ref('C31 C33', 'specs.field.grid_lookup', at='crowddynamics.core.steering.quickest_path.meshgrid')
def grid_cell(step: 'real', minx: 'real', miny: 'real', maxx: 'real', maxy: 'real', position: 'arr:vec2'):
    """index of the grid cell: whole steps from the lower bounds, in (x, y) order; values, shape, step and bounds describe the same grid"""
    x = np.arange(minx, maxx + step, step=step)
    y = np.arange(miny, maxy + step, step=step)
    values = np.meshgrid(x, y, indexing='xy')
    return values, values[0].shape, step, (minx, miny, maxx, maxy), ((np.asarray(position) - np.array((minx, miny))) / step).astype(np.int64)


def grid_lookup(step, minx, miny, maxx, maxy, position):
    m = qp.meshgrid(step, minx, miny, maxx, maxy)
    return m.values, m.shape, m.step, m.bounds, m.indicer(position)


@ref('C31', 'crowddynamics.core.steering.quickest_path.distance_map')
def distances(mgrid: 'any', targets: 'any', obstacles: 'any'):
    """targets are the zero contour, obstacles are masked, everything else is free"""
    from crowddynamics.core.geometry import draw_geom
    contour = np.full(mgrid.shape, -1.0, dtype=np.float64)
    mask = np.full(mgrid.shape, False, dtype=np.bool_)
    draw_geom(targets, contour, mgrid.indicer, 1.0)
    if obstacles is not None:
        draw_geom(obstacles, mask, mgrid.indicer, True)
    return skfmm.distance(np.ma.MaskedArray(contour, mask), dx=mgrid.step)


@ref('C31', 'crowddynamics.core.steering.quickest_path.direction_map')
def directions(dmap: 'any'):
    """normalised gradient in (x, y) order, undefined where it vanishes"""
    dy, dx = np.gradient(dmap)
    length = np.hypot(dy, dx)
    length[length == 0] = np.nan
    return dx / length, dy / length


@ref('C31', 'crowddynamics.core.steering.quickest_path.fill_missing')
def fill(mask: 'any', x: 'any', y: 'any', u: 'any', v: 'any'):
    """missing values are those of the nearest boundary cell"""
    boundaries = find_boundaries(u.mask, mode='outer')
    points = np.stack((y[boundaries], x[boundaries])).T
    of_u = NearestNDInterpolator(points, u[boundaries], rescale=False)
    of_v = NearestNDInterpolator(points, v[boundaries], rescale=False)
    u[mask] = of_u((y[mask], x[mask]))
    v[mask] = of_v((y[mask], x[mask]))


@ref('C31', 'crowddynamics.core.steering.quickest_path.shortest_path')
def path(mgrid: 'any', domain: 'any', targets: 'any', obstacles: 'any', buffer_radius: 'real'):
    """obstacles grow by the buffer; directions missing outside the obstacles themselves are filled"""
    from crowddynamics.core.geometry import draw_geom
    if obstacles is None:
        dmap = qp.distance_map(mgrid, targets, None)
        return qp.direction_map(dmap), dmap
    dmap = qp.distance_map(mgrid, targets, obstacles.buffer(buffer_radius).intersection(domain))
    dirs = qp.direction_map(dmap)
    mask = np.full(mgrid.shape, False, dtype=np.bool_)
    draw_geom(obstacles, mask, mgrid.indicer, True)
    qp.fill_missing(np.logical_xor(mask, dirs[0].mask), mgrid.values[0], mgrid.values[1], dirs[0], dirs[1])
    return dirs, dmap


@ref('C31 C33', 'crowddynamics.core.steering.obstacle_handling.direction_map_obstacles')
def towards_obstacles(mgrid: 'any', obstacles: 'any'):
    """distances and directions towards the obstacles"""
    dmap = qp.distance_map(mgrid, obstacles, None)
    return qp.direction_map(dmap), dmap


@ref('C31', 'crowddynamics.core.steering.navigation.static_potential', opaque='maps')
def potential(domain: 'any', targets: 'any', obstacles: 'any', step: 'real', radius: 'real', strength: 'real'):
    """grid over the bounds of the domain, distances to the targets and the directions there, around obstacles if there are any"""
    from crowddynamics.core.steering.obstacle_handling import direction_map_obstacles, obstacle_handling
    grid = qp.meshgrid(step, *domain.bounds)
    dirs, dmap = qp.shortest_path(grid, domain, targets, obstacles, radius)
    if obstacles is not None:
        away, near = direction_map_obstacles(grid, obstacles)
        dirs = obstacle_handling(near, away, dirs, radius, strength)
    return grid, dmap, dirs
