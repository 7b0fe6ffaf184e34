"""Random points on lines and polygons, polygon areas, update times."""
import numpy as np
from scipy.spatial.qhull import Delaunay

from crowddynamics.core import sampling as code


@ref('C30', 'crowddynamics.core.sampling.linestring_length_cumsum')
def lengths(vertices: 'arr:vec2'):
    """running total of the segment lengths"""
    n = len(vertices) - 1
    out = np.zeros(n)
    total = 0.0
    for i in range(n):
        d = vertices[i + 1] - vertices[i]
        total = total + np.sqrt(d[0] ** 2 + d[1] ** 2)
        out[i] = total
    return out


@ref('C30', 'crowddynamics.core.sampling.random_sample_line')
def on_line(p0: 'vec2', p1: 'vec2'):
    """a point between the end points, linear in one uniform number"""
    x = np.random.random()
    return p0 + x * (p1 - p0)


@ref('C30', 'crowddynamics.core.sampling.random_sample_triangle')
def in_triangle(a: 'vec2', b: 'vec2', c: 'vec2'):
    """a convex combination of the corners from two uniform numbers, uniform over the triangle"""
    s = np.sqrt(np.random.random())
    r = np.random.random()
    return (1 - s) * a + s * (1 - r) * b + s * r * c


@ref('C30', 'crowddynamics.core.sampling.triangle_area_cumsum')
def areas(trimesh: 'arr:any'):
    """running total of the triangle areas"""
    from crowddynamics.core.geom2D import polygon_area
    n = trimesh.shape[0]
    out = np.zeros(n)
    total = 0.0
    for i in range(n):
        total = total + polygon_area(trimesh[i, :, :])
        out[i] = total
    return out


@ref('C30', 'crowddynamics.core.sampling.linestring_sample', asserts=True)
def line_points(vertices: 'any'):
    """endless points, each on a segment drawn in proportion to its length"""
    assert len(vertices.shape) == 2
    assert vertices.shape[1] == 2
    w = code.linestring_length_cumsum(vertices)
    w = w / w[-1]
    while True:
        i = np.searchsorted(w, np.random.random())
        yield code.random_sample_line(vertices[i], vertices[i + 1])


@ref('C30', 'crowddynamics.core.sampling.polygon_sample', asserts=True)
def polygon_points(vertices: 'any'):
    """endless points, each in a triangle of the triangulation drawn in proportion to its area"""
    assert len(vertices.shape) == 2
    assert vertices.shape[1] == 2
    mesh = vertices[Delaunay(vertices).simplices]
    w = code.triangle_area_cumsum(mesh)
    w = w / w[-1]
    while True:
        corners = mesh[np.searchsorted(w, np.random.random())]
        yield code.random_sample_triangle(corners[0], corners[1], corners[2])


@ref('C38 C30', 'crowddynamics.core.geom2D.polygon_area')
def polygon_area(vertices: 'arr:vec2'):
    """shoelace formula over all vertices cyclically; fewer than three vertices have no area"""
    n = len(vertices)
    if n < 3:
        return 0.0
    total = 0.0
    for i in range(1, n - 1):
        total = total + vertices[i, 0] * (vertices[i + 1, 1] - vertices[i - 1, 1])
    total = total + vertices[n - 1, 0] * (vertices[0, 1] - vertices[n - 2, 1])
    total = total + vertices[0, 0] * (vertices[1, 1] - vertices[n - 1, 1])
    return abs(total) / 2


@ref('C39', 'crowddynamics.core.rand.poisson_clock')
def clock(interval: 'real', dt: 'real'):
    """times are running sums of exponential waiting times of the given mean, as long as they are below dt"""
    now = np.random.exponential(scale=interval)
    while now < dt:
        yield now
        now = now + np.random.exponential(scale=interval)


@ref('C39', 'crowddynamics.core.rand.poisson_timings')
def timings(players: 'arr:int', interval: 'real', dt: 'real'):
    """one clock per player, visited in random order; players come out in the order of their times; the argument stays as it is"""
    from crowddynamics.core.rand import poisson_clock
    order = np.copy(players)
    np.random.shuffle(order)
    times = []
    who = []
    for p in order:
        for now in poisson_clock(interval, dt):
            times.append(now)
            who.append(p)
    for k in np.argsort(np.array(times)):
        yield who[k]


@ref('C39', 'crowddynamics.core.rand.random_vector')
def directions(size: 'int', orient: 'tup:real,real' = (0.0, 2.0 * np.pi), mag: 'real' = 1.0):
    """uniform directions between the bounds with the given length"""
    phi = np.random.uniform(orient[0], orient[1], size=size)
    return mag * np.stack((np.cos(phi), np.sin(phi)), axis=1)
