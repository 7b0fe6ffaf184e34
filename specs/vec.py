"""Plane geometry of two-component vectors."""
import numpy as np


@ref('C12 C18 C20 C22', 'crowddynamics.core.vector2D.wrap_to_pi')
def wrap(rad: 'real'):
    """an angle is reduced by a whole number of turns into [-pi, pi]; pi stays pi, negative odd multiples of pi give -pi"""
    r = rad - 2 * np.pi * np.floor(rad / (2 * np.pi))
    if r > np.pi:
        return r - 2 * np.pi
    if r == np.pi and rad < 0:
        return -np.pi
    return r


@ref('C11 C13 C14 C16', 'crowddynamics.core.vector2D.rotate90')
def left(v: 'vec2'):
    """quarter turn counterclockwise; the argument is not modified"""
    return np.array((-v[1], v[0]))


@ref('C11 C16 C22', 'crowddynamics.core.vector2D.rotate270')
def right(v: 'vec2'):
    """quarter turn clockwise; the argument is not modified"""
    return np.array((v[1], -v[0]))


@ref('C11 C18', 'crowddynamics.core.vector2D.angle', also=[{'v': 'arr:vec2'}])
def angle(v: 'vec2'):
    """angle to the x-axis, for one vector and for rows of vectors"""
    return np.arctan2(v[..., 1], v[..., 0])


@ref('C11 C13 C14 C16 C17 C21 C33 C35 C36 C37 C47', 'crowddynamics.core.vector2D.length', also=[{'v': 'arr:vec2'}])
def length(v: 'vec2'):
    """Euclidean length, for one vector and for rows of vectors"""
    return np.sqrt(v[..., 0] * v[..., 0] + v[..., 1] * v[..., 1])


@ref('C11', 'crowddynamics.core.vector2D.dot', also=[{'a': 'arr:vec2@n', 'b': 'arr:vec2@n'}])
def dot(a: 'vec2', b: 'vec2'):
    """scalar product, symmetric and bilinear"""
    return a[..., 0] * b[..., 0] + a[..., 1] * b[..., 1]


@ref('C11', 'crowddynamics.core.vector2D.cross', also=[{'a': 'arr:vec2@n', 'b': 'arr:vec2@n'}])
def cross(a: 'vec2', b: 'vec2'):
    """out-of-plane component of the vector product, antisymmetric"""
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


@ref('C11 C33 C36', 'crowddynamics.core.vector2D.normalize', tiny=True)
def normalize(v: 'vec2'):
    """unit vector of the same direction; the zero vector is returned unchanged"""
    n = length(v)
    if n == 0:
        return v
    return v / n


@ref('C11 C17', 'crowddynamics.core.vector2D.truncate', tiny=True)
def truncate(v: 'vec2', l: 'real'):
    """in place: a vector longer than l is scaled to length l keeping its direction, any other is left alone"""
    n = length(v)
    if n > l:
        v[0] = v[0] * l / n
        v[1] = v[1] * l / n


@ref('C11 C22 C46', 'crowddynamics.core.vector2D.unit_vector')
def unit(orientation: 'real'):
    """the unit vector at an angle"""
    return np.array((np.cos(orientation), np.sin(orientation)))


@ref('C11 C46', 'crowddynamics.core.vector2D.unit_vector')
def units(orientation: 'arr:real'):
    """one unit vector per angle, as rows"""
    return np.stack((np.cos(orientation), np.sin(orientation)), axis=-1)


@ref('C11', 'crowddynamics.core.vector2D.weighted_average', also=[{'e0': 'arr:vec2@n', 'e1': 'arr:vec2@n'}])
def weighted_average(e0: 'vec2', e1: 'vec2', weight: 'real'):
    """convex combination: weight of the first, complement of the second"""
    return e1 + weight * (e0 - e1)
