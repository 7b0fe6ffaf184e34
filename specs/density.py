"""Densities."""
import numpy as np
from scipy.spatial import Voronoi
from shapely.geometry.polygon import Polygon

from crowddynamics.core.geom2D import polygon_area


@ref('C38', 'crowddynamics.core.quantities.density_classical')
def per_cell(points: 'arr:vec2@n', cell_size: 'real'):
    """the number of points of every cell divided by its area"""
    k = np.floor(points / cell_size).astype(np.int64)
    x = k[:, 0]
    y = k[:, 1]
    count = np.zeros((x.max() - x.min() + 1, y.max() - y.min() + 1), dtype=np.int64)
    for i, j in zip(x, y):
        count[i - x.min(), j - y.min()] += 1
    return count / (cell_size * cell_size)


@ref('C38', 'crowddynamics.core.quantities.bounding_box')
def bounds(points: 'arr2:real'):
    """least and greatest coordinate in every dimension"""
    out = np.empty((points.shape[1], 2))
    for i in range(points.shape[1]):
        out[i, 0] = points[:, i].min()
        out[i, 1] = points[:, i].max()
    return out


@ref('C38', 'crowddynamics.core.quantities.rectangle')
def box(xmin: 'real', xmax: 'real', ymin: 'real', ymax: 'real'):
    """the corners in order"""
    return Polygon(((xmin, ymin), (xmin, ymax), (xmax, ymax), (xmax, ymin)))


@ref('C38', 'crowddynamics.core.quantities.voronoi_finite_polygons_2d')
def finite_regions(vor: 'any', radius: 'any' = None):
    """regions of all points in order; endpoints at infinity are moved to the given distance outwards, corners are sorted by angle"""
    if vor.points.shape[1] != 2:
        raise ValueError('')
    regions = []
    corners = vor.vertices.tolist()
    middle = vor.points.mean(axis=0)
    if radius is None:
        radius = vor.points.ptp().max() * 2
    ridges_of = {}
    for (p1, p2), (v1, v2) in zip(vor.ridge_points, vor.ridge_vertices):
        ridges_of.setdefault(p1, []).append((p2, v1, v2))
        ridges_of.setdefault(p2, []).append((p1, v1, v2))
    for p1, region in enumerate(vor.point_region):
        vs = vor.regions[region]
        if all(v >= 0 for v in vs):
            regions.append(vs)
            continue
        ridges = ridges_of[p1]
        new = [v for v in vs if v >= 0]
        for p2, v1, v2 in ridges:
            if v2 < 0:
                v1, v2 = v2, v1
            if v1 >= 0:
                continue
            t = vor.points[p2] - vor.points[p1]
            t /= np.linalg.norm(t)
            n = np.array([-t[1], t[0]])
            mid = vor.points[[p1, p2]].mean(axis=0)
            out = np.sign(np.dot(mid - middle, n)) * n
            far = vor.vertices[v2] + out * radius
            new.append(len(corners))
            corners.append(far.tolist())
        xs = np.asarray([corners[v] for v in new])
        c = xs.mean(axis=0)
        a = np.arctan2(xs[:, 1] - c[1], xs[:, 0] - c[0])
        new = np.array(new)[np.argsort(a)]
        regions.append(new.tolist())
    return regions, np.asarray(corners)


@ref('C38', 'crowddynamics.core.quantities.density_voronoi_1')
def shared(points: 'arr:vec2@n', cell_size: 'real'):
    """every point spreads one over its region inside the bounding box, cells collect the shares of their area"""
    from crowddynamics.core.quantities import bounding_box, rectangle, voronoi_finite_polygons_2d
    bbox = bounding_box(points)
    (x0, x1), (y0, y1) = bbox
    area = rectangle(x0, x1, y0, y1)
    regions, corners = voronoi_finite_polygons_2d(Voronoi(points))
    (i0, i1), (j0, j1) = np.int64(np.floor(bbox / cell_size))
    out = np.zeros(shape=(i1 - i0 + 1, j1 - j0 + 1))
    for region in regions:
        part = Polygon(shell=corners[region]) & area
        xa, ya, xb, yb = part.bounds
        for i in range(int(np.floor(xa / cell_size)), int(np.floor(xb / cell_size)) + 1):
            for j in range(int(np.floor(ya / cell_size)), int(np.floor(yb / cell_size)) + 1):
                cell = rectangle(i * cell_size, (i + 1) * cell_size, j * cell_size, (j + 1) * cell_size)
                out[i - i0, j - j0] += (part & cell).area / part.area
    return out / (cell_size ** 2)


@ref('C38', 'crowddynamics.core.quantities.density_voronoi_2')
def own_areas(points: 'arr:vec2@n', cell_size: 'real'):
    """cells divide their number of points by the area of these points' regions"""
    from crowddynamics.core.quantities import voronoi_finite_polygons_2d, _core_2
    vor = Voronoi(points)
    regions, corners = voronoi_finite_polygons_2d(vor)
    return _core_2(points, cell_size, np.array([polygon_area(corners[r]) for r in regions]), vor.point_region)


@ref('C38', 'crowddynamics.core.quantities._core_2', optional=True)
def own_cells(points: 'arr:vec2@n', cell_size: 'real', area: 'arr:real@n', point_region: 'arr:int@n'):
    """cells divide their number of points by the area of these points' regions"""
    k = np.floor(points / cell_size).astype(np.int64)
    x = k[:, 0]
    y = k[:, 1]
    x0 = x.min()
    y0 = y.min()
    shape = (x.max() - x0 + 1, y.max() - y0 + 1)
    number = np.zeros(shape)
    total = np.zeros(shape)
    for p, (i, j) in enumerate(zip(x, y)):
        number[i - x0, j - y0] += 1
        total[i - x0, j - y0] += area[p]
    n, m = number.shape
    for i in range(n):
        for j in range(m):
            if total[i, j] > 0:
                number[i, j] /= total[i, j]
    return number
