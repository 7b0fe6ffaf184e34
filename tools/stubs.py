"""Stand-ins for libraries that are not installed here (numba, cell_lists, scipy, shapely, ...),
enough to import and run the pure-Python code of crowddynamics."""
import sys, types, itertools, math
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
import collections, collections.abc
for _n in ('Callable', 'Collection', 'Generator', 'Iterable', 'Mapping', 'Sequence', 'MutableMapping', 'MutableSequence', 'Sized', 'Hashable', 'Iterator'):
    if _n not in collections.__dict__:
        setattr(collections, _n, getattr(collections.abc, _n))
import numpy as np
if 'asscalar' not in np.__dict__:
    np.asscalar = lambda a: np.asarray(a).item()


class Any_:
    """absorbs every signature expression"""
    def __init__(self, name='any'):
        self.name = name
    def __call__(self, *a, **k):
        return self
    def __getitem__(self, k):
        return self
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Any_(n)


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__getattr__ = lambda n: (_ for _ in ()).throw(AttributeError(n)) if n.startswith('__') else Any_(n)
    m.__path__ = []
    sys.modules[name] = m
    return m


def jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not isinstance(a[0], Any_):
        return a[0]
    return lambda f: f


class Float:
    pass


class Array:
    pass


def generated_jit(*a, **k):
    def deco(f):
        def call(*args):
            kinds = [Array() if np.ndim(x) else Float() for x in args]
            return f(*kinds)(*args)
        return call
    return deco


def vectorize(*a, **k):
    def deco(f):
        g = np.vectorize(f, otypes=[float])
        def call(x):
            return f(x) if np.ndim(x) == 0 else g(x)
        return call
    return deco


def install():
    nb = module('numba', jit=jit, njit=jit, vectorize=vectorize, generated_jit=generated_jit, typeof=lambda x: Any_())
    module('numba.types', Float=Float, Array=Array)
    module('numba.typing'); module('numba.typing.typeof', typeof=lambda x: Any_())
    def add_to_cells(points, cell_size):
        return np.arange(len(points)), np.array([len(points)]), np.array([0]), np.array([1, 1])
    def iter_nearest_neighbors(cell_indices, neigh, points_indices, count, offset):
        return itertools.combinations(range(int(count.sum())), 2)
    module('cell_lists', add_to_cells=add_to_cells, neighboring_cells=lambda s: np.zeros((0, 2), int), iter_nearest_neighbors=iter_nearest_neighbors)
    class TN:
        @staticmethod
        def rvs(a, b, loc=0.0, scale=1.0, size=1, random_state=None):
            n = int(np.prod(size)); out = []
            while len(out) < n:
                x = np.random.normal()
                if a <= x <= b:
                    out.append(x)
            return loc + scale * np.array(out).reshape(size)
    st = module('scipy.stats', truncnorm=TN)
    sp = module('scipy.spatial')
    sg = module('scipy.signal')
    module('scipy', stats=st, spatial=sp, signal=sg)
    for n in ('matplotlib', 'matplotlib.pyplot', 'bokeh', 'bokeh.plotting', 'bokeh.models', 'bokeh.io', 'bokeh.layouts', 'hypothesis', 'hypothesis.strategies', 'hypothesis.extra', 'hypothesis.extra.numpy', 'pandas', 'numba.decorators'):
        if n not in sys.modules:
            module(n)
    # ---- geometry
    class BaseGeometry:
        is_valid = True
        is_empty = False
    class LineString(BaseGeometry):
        def __init__(self, coords=()):
            self.coords = [tuple(map(float, c)) for c in coords]
        def __array__(self, *a):
            return np.array(self.coords)
        @property
        def bounds(self):
            c = np.array(self.coords)
            return (*c.min(0), *c.max(0))
        def __or__(self, other):
            return Multi([self, other])
        def buffer(self, r, *a, **k):
            return self
        def intersection(self, o):
            return self
    class Ring(LineString):
        def __init__(self, coords=()):
            super().__init__(coords)
            if self.coords and self.coords[0] != self.coords[-1]:
                self.coords.append(self.coords[0])
    class Point(LineString):
        def __init__(self, *c):
            LineString.__init__(self, [c if len(c) > 1 else c[0]])
    Point.__bases__ = (BaseGeometry,)
    Point.__array__ = LineString.__array__
    class Polygon(BaseGeometry):
        def __init__(self, shell=(), holes=()):
            self.exterior = Ring(shell)
            self.interiors = [Ring(h) for h in holes]
        @property
        def bounds(self):
            return self.exterior.bounds
        @property
        def convex_hull(self):
            return self
        def __or__(self, other):
            return Multi([self, other])
        def __sub__(self, other):
            return self
        def buffer(self, r, *a, **k):
            return self
        def intersection(self, o):
            return self
        @property
        def area(self):
            c = np.array(self.exterior.coords)
            x, y = c[:-1].T
            return abs(np.dot(x, np.roll(y, -1)) - np.dot(y, np.roll(x, -1))) / 2
    class BaseMultipartGeometry(BaseGeometry):
        pass
    class Multi(BaseMultipartGeometry):
        def __init__(self, geoms=()):
            self.geoms = list(geoms)
        def __iter__(self):
            return iter(self.geoms)
        def __or__(self, other):
            return Multi(self.geoms + [other])
        def buffer(self, r, *a, **k):
            return self
        def intersection(self, o):
            return self
    def mapping(g):
        if isinstance(g, Point):
            return {'type': 'Point', 'coordinates': tuple(g.coords[0])}
        if isinstance(g, LineString):
            return {'type': 'LineString', 'coordinates': tuple(g.coords)}
        if isinstance(g, Polygon):
            return {'type': 'Polygon', 'coordinates': tuple(tuple(r.coords) for r in [g.exterior] + g.interiors)}
        return {'type': 'GeometryCollection', 'geometries': [mapping(x) for x in g]}
    def shape(m):
        k = m['type']
        if k == 'Point':
            return Point(m['coordinates'])
        if k == 'LineString':
            return LineString(m['coordinates'])
        if k == 'Polygon':
            return Polygon(m['coordinates'][0], m['coordinates'][1:])
        return Multi([shape(x) for x in m['geometries']])
    base = module('shapely.geometry.base', BaseGeometry=BaseGeometry, BaseMultipartGeometry=BaseMultipartGeometry)
    poly = module('shapely.geometry.polygon', Polygon=Polygon)
    geo = module('shapely.geometry', Point=Point, LineString=LineString, LinearRing=Ring, Polygon=Polygon, MultiPoint=Multi, MultiLineString=Multi,
                 MultiPolygon=Multi, GeometryCollection=Multi, mapping=mapping, shape=shape, base=base, polygon=poly)
    spd = module('shapely.speedups'); spd.available = False
    module('shapely.ops')
    module('shapely', geometry=geo, speedups=spd)

    class Path:
        def __init__(self, v):
            self.v = np.asarray(v)
        def contains_points(self, pts):
            out = []
            for x, y in np.asarray(pts):
                c = False
                n = len(self.v)
                for k in range(n):
                    (x0, y0), (x1, y1) = self.v[k], self.v[(k + 1) % n]
                    if (y0 > y) != (y1 > y) and x < (x1 - x0) * (y - y0) / (y1 - y0) + x0:
                        c = not c
                out.append(c)
            return np.array(out, dtype=bool)
    module('matplotlib.path', Path=Path)

    def line(r0, c0, r1, c1):
        n = max(abs(r1 - r0), abs(c1 - c0)) + 1
        return np.rint(np.linspace(r0, r1, n)).astype(int), np.rint(np.linspace(c0, c1, n)).astype(int)
    def perimeter(r, c):
        a = [line(r[k], c[k], r[k + 1], c[k + 1]) for k in range(len(r) - 1)]
        return np.concatenate([x[0] for x in a]), np.concatenate([x[1] for x in a])
    def polygon(r, c):
        v = np.stack((r, c), 1)
        pts = np.array([(i, j) for i in range(min(r), max(r) + 1) for j in range(min(c), max(c) + 1)])
        m = Path(v).contains_points(pts)
        return pts[m, 0], pts[m, 1]
    sd = module('skimage.draw', line=line, polygon=polygon, polygon_perimeter=perimeter)
    module('skimage', draw=sd)
    def boundaries(mask, mode='outer'):
        out = np.zeros(mask.shape, bool)
        n, m = mask.shape
        for i in range(n):
            for j in range(m):
                if not mask[i, j]:
                    out[i, j] = mask[max(i - 1, 0):i + 2, max(j - 1, 0):j + 2].any()
        return out
    module('skimage.segmentation', find_boundaries=boundaries)
    class Nearest:
        def __init__(self, points, values, rescale=False):
            self.p, self.v = np.asarray(points), np.asarray(values)
        def __call__(self, at):
            at = np.stack(at, -1)
            return np.array([self.v[np.argmin(((self.p - q) ** 2).sum(1))] for q in at])
    module('scipy.interpolate', NearestNDInterpolator=Nearest)
    def fmm(phi, dx=1.0):
        import heapq
        mask = np.ma.getmaskarray(phi); phi = np.ma.getdata(phi)
        d = np.full(phi.shape, np.inf); q = []
        for i, j in zip(*np.nonzero((phi >= 0) & ~mask)):
            d[i, j] = 0; q.append((0.0, i, j))
        heapq.heapify(q)
        while q:
            t, i, j = heapq.heappop(q)
            if t > d[i, j]:
                continue
            for a in (-1, 0, 1):
                for b in (-1, 0, 1):
                    u, v = i + a, j + b
                    if 0 <= u < phi.shape[0] and 0 <= v < phi.shape[1] and not mask[u, v]:
                        s = t + dx * math.hypot(a, b)
                        if s < d[u, v]:
                            d[u, v] = s; heapq.heappush(q, (s, u, v))
        d = np.where(np.isinf(d), 0, -d)
        return np.ma.MaskedArray(d, mask) if mask.any() else d
    module('skfmm', distance=fmm)
    class Delaunay:
        def __init__(self, v):
            v = np.asarray(v)
            n = len(v) - 1 if (v[0] == v[-1]).all() else len(v)
            self.simplices = np.array([(0, k, k + 1) for k in range(1, n - 1)])
    module('scipy.spatial.qhull', Delaunay=Delaunay)


install()
