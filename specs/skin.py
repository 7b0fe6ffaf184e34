"""Skin-to-skin distances between body shapes."""
import numpy as np
from specs.vec import length, dot, left


@ref('C13 C14 C16 C27', 'crowddynamics.core.distance.distance_circles')
def circles(x0: 'vec2', r0: 'real', x1: 'vec2', r1: 'real'):
    """distance of centres minus both radii, unit normal from the second to the first centre (zero for coincident centres)"""
    x = x0 - x1
    d = length(x)
    if d == 0:
        return d - (r0 + r1), np.zeros(2)
    return d - (r0 + r1), x / d


@ref('C13 C14 C16 C27', 'crowddynamics.core.distance.distance_circle_line')
def circle_segment(x: 'vec2', r: 'real', p0: 'vec2', p1: 'vec2'):
    """distance of the centre to the nearest point of the segment minus the radius, unit normal from that point to the centre"""
    d = p1 - p0
    l = length(d)
    t = d / l
    s = dot(t, x - p0)
    if s < 0:
        q = x - p0
        return length(q) - r, q / length(q)
    if s > l:
        q = x - p1
        return length(q) - r, q / length(q)
    m = left(t)
    k = dot(m, x - p0)
    return np.abs(k) - r, np.sign(k) * m


@ref('C14 C16 C27', 'crowddynamics.core.distance.distance_three_circles')
def bodies(x0: 'tup:vec2,vec2,vec2', r0: 'tup:real,real,real', x1: 'tup:vec2,vec2,vec2', r1: 'tup:real,real,real'):
    """the closest of the nine pairs of parts (the first one on ties) gives distance and normal; arms run from the own torso to the surface of the own touching part"""
    best = np.nan
    nrm = np.zeros(2)
    a = b = 0
    for i in range(3):
        for j in range(3):
            h, n = circles(x0[i], r0[i], x1[j], r1[j])
            if np.isnan(best) or h < best:
                best, nrm, a, b = h, n, i, j
    return best, nrm, x0[a] - x0[0] + r0[a] * nrm, x1[b] - x1[0] - r1[b] * nrm


@ref('C14 C16 C27', 'crowddynamics.core.distance.distance_three_circle_line')
def body_segment(x: 'tup:vec2,vec2,vec2', r: 'tup:real,real,real', p0: 'vec2', p1: 'vec2'):
    """the part closest to the segment (the first one on ties) gives distance and normal; the arm runs from the torso to that part's surface facing the wall"""
    best = np.nan
    nrm = np.zeros(2)
    a = 0
    for i in range(3):
        h, n = circle_segment(x[i], r[i], p0, p1)
        if np.isnan(best) or h < best:
            best, nrm, a = h, n, i
    return best, nrm, x[a] - x[0] - r[a] * nrm
