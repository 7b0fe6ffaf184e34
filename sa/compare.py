"""Deciding whether two value graphs denote the same function.

1. alpha-/AC-canonical form: identical canonical graphs are equal (proved).
2. otherwise the graphs are value-numbered by random interpretation
   (Gulwani & Necula, "Global value numbering using random interpretation",
   POPL 2004): every node receives a random element of its semantic domain,
   operators are interpreted, unknown functions are hash functions, a sum is a
   random linear functional, a loop is a colour refined over one abstract
   iteration.  Equal functions have equal numbers; different numbers separate.
"""
import hashlib
import math
import random
from . import terms as t
from .terms import T
from .normal import Norm, TooBig

EPS = 1e-7
SQEPS = 1e-7        # of squares
NIL = 1e-9          # no different from nothing
SCALE = 1.0         # of the inputs


class tiny:
    """everything is small: what is done only to what is large enough shows"""
    def __enter__(self):
        global EPS, SQEPS, NIL, SCALE
        EPS, SQEPS, NIL, SCALE = 1e-22, 1e-24, 1e-20, 1e-9

    def __exit__(self, *a):
        global EPS, SQEPS, NIL, SCALE
        EPS, SQEPS, NIL, SCALE = 1e-7, 1e-7, 1e-9, 1.0




# ------------------------------------------------------------- canonical form
_ids = {}


def _cid(key):
    r = _ids.get(key)
    if r is None:
        r = len(_ids)
        _ids[key] = r
    return r


COMM = {'add', 'mul', 'and', 'or', 'eq', 'evset', 'heap'}
# op -> index of binder args
BINDERS = {'lam', 'mapl', 'cmp', 'sum', 'exists', 'mapflat', 'alam', 'loop'}


class Canon:
    def __init__(self):
        self.memo = {}
        self.fv = {}

    def id(self, u, env=(), depth=0):
        return self._go(u, dict(env), depth)

    def _key(self, u, env):
        f = self.fv.get(u)
        if f is None:
            f = tuple(sorted((x for x in t.free(u)), key=lambda x: x.uid))
            self.fv[u] = f
        return (u, tuple((x, env[x]) for x in f if x in env))

    def _go(self, u, env, d):
        k = self._key(u, env) + (d if u.op in BINDERS else 0,)
        k = (k, d)
        r = self.memo.get(k)
        if r is None:
            r = self._calc(u, env, d)
            self.memo[k] = r
        return r

    def _calc(self, u, env, d):
        o = u.op
        if o in ('idx', 'cv'):
            if u in env:
                return _cid(('bv', env[u]))
            return _cid((o, 'free', u.uid))
        if o == 'loop':
            idx, n, cvs, inits, nexts, stop = u.args
            e2 = dict(env)
            e2[idx] = d
            nid = self._go(n, env, d)
            ini = [self._go(x, env, d) for x in inits]
            order = sorted(range(len(cvs)), key=lambda j: (ini[j], str(cvs[j].args[1])))
            for p, j in enumerate(order):
                e2[cvs[j]] = (d, p)
            return _cid(('loop', nid, tuple(ini[j] for j in order), tuple(self._go(nexts[j], e2, d + 1) for j in order),
                         self._go(stop, e2, d + 1)))
        if o in ('lval', 'tloop', 'tlast'):
            loop = u.args[0]
            e2 = self._loopenv(loop, env, d)
            return _cid((o, self._go(loop, env, d), self._go(u.args[1], e2, d + 1)))
        if o == 'lout':
            loop = u.args[0]
            e2 = self._loopenv(loop, env, d)
            return _cid((o, self._go(loop, env, d), _cid(('bv', e2[loop.args[2][u.args[1]]]))))
        if o in BINDERS:
            e2 = dict(env)
            e2[u.args[0]] = d
            if o == 'alam':
                return _cid((o, self._go(u.args[1], e2, d + 1)))
            return _cid((o, self._go(u.args[1], env, d)) + tuple(self._go(x, e2, d + 1) for x in u.args[2:]))
        if o == 'lt' or o == 'le':
            # sign normal form of the difference
            p = t.sub(u.args[0], u.args[1]) if u.args[0].op not in ('inf', 'ninf') and u.args[1].op not in ('inf', 'ninf') else None
            if p is not None:
                c, r = _norm_scale(p)
                return _cid((o, c, self._go(r, env, d)))
        if o == 'app' and u.args[0] == 'rand':
            pass
        args = tuple(self._arg(a, env, d) for a in u.args if not (isinstance(a, T) and a.op == 'tag'))
        if o in COMM:
            args = tuple(sorted(args))
        return _cid((o,) + args)

    def _loopenv(self, loop, env, d):
        idx, n, cvs, inits, nexts, stop = loop.args
        e2 = dict(env)
        e2[idx] = d
        ini = [self._go(x, env, d) for x in inits]
        order = sorted(range(len(cvs)), key=lambda j: (ini[j], str(cvs[j].args[1])))
        for p, j in enumerate(order):
            e2[cvs[j]] = (d, p)
        return e2

    def _arg(self, a, env, d):
        if isinstance(a, T):
            return self._go(a, env, d)
        if isinstance(a, tuple):
            return _cid(('tuple',) + tuple(self._arg(x, env, d) for x in a))
        return _cid(('c', a))


def _norm_scale(p):
    """p scaled by a positive constant so that proportional tests agree"""
    parts = p.args if p.op == 'add' else (p,)
    cs = [abs(t.split_coef(x)[0]) if x.op != 'num' else abs(x.args[0]) for x in parts]
    c = max(cs) if cs else 1
    if c in (0, 1):
        return 1, p
    return 1, t.mul(t.num(1 / c), p)


# ------------------------------------------------------------------ valuation

class Obj:
    __slots__ = ('h',)

    def __init__(self, h):
        self.h = h

    def __eq__(self, o):
        return isinstance(o, Obj) and o.h == self.h

    def __hash__(self):
        return hash(self.h)

    def __repr__(self):
        return 'obj#%x' % (self.h & 0xffffff)


NANV = float('nan')

POSITIVE = {'radius', 'r_t', 'r_s', 'r_ts', 'mass', 'inertia_rot', 'target_velocity', 'target_angular_velocity', 'dt', 'cell_size', 'step',
            'tau_adj', 'tau_rot', 'k_soc', 'tau_0', 'mu', 'kappa', 'damping', 'damping_coef', 'f_soc_ij_max', 'f_soc_iw_max',
            'std_rand_force', 'std_rand_torque', 'sight', 'sight_wall', 'd_min', 'size', 'width', 'height', 'dt_min', 'dt_max', 'size_nearest_other', 'sight_herding'}
INTS = {'index', 'seed', 'size', 'iterations'}

ARCH = {'list': ('list', 'Iterable', 'Sequence', 'Sized', 'Collection'), 'dict': ('dict', 'Mapping', 'Iterable', 'Sized', 'Collection'), 'tuple': ('tuple', 'Iterable', 'Sequence', 'Sized', 'Collection'),
        'str': ('str', 'Iterable', 'Sequence', 'Sized', 'Collection'), 'int': ('int', 'Number', 'Integral', 'Real'), 'float': ('float', 'Number', 'Real'),
        'LineString': ('LineString', 'BaseGeometry'), 'Polygon': ('Polygon', 'BaseGeometry'), 'Point': ('Point', 'BaseGeometry'),
        'MultiLineString': ('MultiLineString', 'BaseGeometry', 'BaseMultipartGeometry', 'Iterable'), 'MultiPolygon': ('MultiPolygon', 'BaseGeometry', 'BaseMultipartGeometry', 'Iterable'), 'LinearRing': ('LinearRing', 'LineString', 'BaseGeometry'),
        'ndarray': ('ndarray', 'Iterable', 'Sized')}
SUBTRAITS = {}


def _h(*xs):
    m = hashlib.blake2b(repr(xs).encode(), digest_size=8)
    return int.from_bytes(m.digest(), 'big')


def rnd(v):
    """hashable rounding of a value"""
    if isinstance(v, bool):
        return ('b', v)
    if isinstance(v, (int, float)):
        if v != v:
            return 'nan'
        if v in (math.inf, -math.inf):
            return ('f', v)
        if abs(v) < NIL:
            return ('f', 0.0)
        return ('f', float('%.6g' % v))
    if isinstance(v, Obj):
        return ('o', v.h)
    if isinstance(v, tuple):
        return tuple(rnd(x) for x in v)
    if isinstance(v, Fn):
        return ('fn',) + tuple(rnd(v(k)) for k in (0, 1, 2, 3, 4, 5, -1, -2))     # every index that is tried
    return ('k', v)


def same(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if a == b:
            return True
        # (nothing at all is told from little)
        return abs(a - b) <= (1e-8 * SCALE if a == 0 or b == 0 else 2e-6 * max(SCALE, abs(a), abs(b)))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Fn) and isinstance(b, Fn):
        return all(same(a(k), b(k)) for k in (0, 1, 2, 3))
    return type(a) is type(b) and a == b


class Pools:
    """constants and classes the two graphs test opaque values against"""
    def __init__(self, terms):
        self.consts = {}
        self.classes = {}
        seen = set()
        stack = list(terms)
        while stack:
            u = stack.pop()
            if u in seen:
                continue
            seen.add(u)
            if u.op == 'eq':
                for x, c in (u.args, u.args[::-1]):
                    if c.op in ('str', 'none', 'gconst', 'clsv', 'ext', 'bool', 'fnref') or (c.op == 'num' and x.op not in ('el', 'add', 'mul', 'idx', 'cv', 'cel')):
                        self.consts.setdefault(label(x), [])
                        if c not in self.consts[label(x)]:
                            self.consts[label(x)].append(c)
            elif u.op == 'isinst':
                l = label(u.args[0])
                self.classes.setdefault(l, set()).add(u.args[1].args[0])
            stack.extend(t.children(u))
        for l in self.consts:
            self.consts[l].sort(key=lambda c: t.show(c))


def label(x):
    if x.op == 'attr':
        return ('attr', x.args[1])
    if x.op == 'item':
        return ('item', x.args[1] if t.is_const(x.args[1]) else None)
    if x.op == 'app':
        return ('app', x.args[0])
    if x.op == 'sym':
        return x
    return (x.op,)


class Ev:
    """one random interpretation"""

    def __init__(self, seed, pools, over=None, record=False, params=None):
        self.seen_tif = set()
        self.seed = seed
        self.pools = pools
        self.over = over or {}
        self.memo = {}
        self.record = record
        self.tests = []        # (kind, term, env, value)
        self.seen = set()
        self.fv = {}
        self.atoms = None
        self.steps = 0
        self.path = []          # conditions around the place being visited

    # -- helpers
    def hash(self, *xs):
        return _h(self.seed, *xs)

    def unit(self, h):
        return (_h(self.seed, 'u', h) % 1000003) / 1000003.0

    def real(self, h, name=None):
        u = self.unit(h)
        wide = _h('wide', self.seed, h) % 9 == 0
        if name in POSITIVE:
            return SCALE * (0.05 + (25 if wide else 2.5) * u)
        if wide:
            return SCALE * (-25 + 50 * u)
        return SCALE * (-3 + 6 * u)

    def num(self, v):
        if isinstance(v, bool):
            return 1.0 if v else 0.0
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Obj):
            return self.over.get(('num', v.h), self.real(v.h))
        if v is None:
            return NANV
        return self.real(self.hash('nv', rnd(v)))

    def truthv(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, Obj):
            r = self.over.get(('truth', v.h))
            if r is None:
                n = self.over.get(_h('len', rnd(v)))
                if n is not None:
                    return n > 0
                return _h(self.seed, 't', v.h) % 3 > 0
            return r
        return bool(_h(self.seed, 't', rnd(v)) % 2)

    def lenof(self, v, gen):
        """length of an opaque value: zero exactly when it is false"""
        h = _h('len', rnd(v))
        if not isinstance(v, Obj):
            n = self.whole(h, gen, 0)
            return max(n, 1) if self.truthv(v) else 0
        r = self.over.get(('truth', v.h))
        n = self.whole(h, lambda: max(gen(), 1) if self.truthv(v) else 0, 0)
        return n if r is None else max(n, 1) if r else 0

    def samples(self, n):
        """a few pseudo-random indices of a domain of size n"""
        if isinstance(n, Obj):
            n = 2 + _h(self.seed, 'dom', n.h) % 5
        n = self.num(n)
        if n != n:
            return []
        if n == math.inf:
            n = 9
        n = int(math.floor(n + 1e-9))
        if n <= 0:
            return []
        if n <= 3:
            return list(range(n))
        h = _h(self.seed, 'smp', n)
        a = h % n
        b = (h // 97) % n
        out = sorted({a, b, (a + 1) % n})
        return out

    atomv = {}

    def atom(self, key, gen):
        """an opaque leaf; may be overridden in a directed interpretation"""
        v = self.over[key] if key in self.over else gen()
        if self.atoms is not None:
            self.atoms.append(key)
            self.atomv[key] = v
        return v

    def whole(self, key, gen, least=None):
        """an opaque leaf that is an integer"""
        v = self.atom(key, gen)
        if isinstance(v, float) and math.isfinite(v):
            v = int(math.floor(v + 0.5))
        if least is not None and isinstance(v, (int, float)) and v < least:
            v = least
        return v

    # -- evaluation
    def ev(self, u, env):
        f = self.fv.get(u)
        if f is None:
            f = tuple(x for x in t.free(u) if x.op in ('idx', 'cv'))
            self.fv[u] = f
        k = (u, tuple([env.get(x) for x in f])) if f else u
        try:
            r = self.memo.get(k, self)
        except TypeError:
            r = self
        if r is not self and self.atoms is None:
            return r
        self.steps += 1
        t.tick()
        r = getattr(self, 'x_' + u.op, self.x_default)(u, env)
        self.memo[k] = r
        return r

    def x_default(self, u, env):
        return self.opaque(u, (u.op,) + tuple(self.hv(a, env) for a in u.args))

    def hv(self, a, env):
        if isinstance(a, T):
            return rnd(self.ev(a, env))
        if isinstance(a, tuple):
            return tuple(self.hv(x, env) for x in a)
        if isinstance(a, t.Box):
            return 'box'
        return repr(a)

    def opaque(self, u, key):
        h = _h('op', key)

        def gen():
            p = self.pools.consts.get(label(u))
            if p:
                k = self.hash('pool', h) % (len(p) + 1)
                if k < len(p):
                    return self.ev(p[k], {})
            nm = u.args[1] if u.op == 'attr' else (u.args[0] if u.op == 'sym' else None)
            if nm in POSITIVE:
                return self.real(h, nm)
            return Obj(self.hash(h))
        return self.atom(h, gen)

    def x_heap(self, u, env):
        return ('heap',) + tuple(sorted((self.hv(a, env) for a in u.args), key=repr))

    def x_hset(self, u, env):
        return ('hset',) + tuple(self.hv(a, env) for a in u.args)

    def x_num(self, u, env):
        v = u.args[0]
        return int(v) if v.denominator == 1 else float(v)

    def x_str(self, u, env):
        return u.args[0]

    def x_bool(self, u, env):
        return u.args[0]

    def x_none(self, u, env):
        return None

    def x_nan(self, u, env):
        return NANV

    def x_inf(self, u, env):
        return math.inf

    def x_ninf(self, u, env):
        return -math.inf

    def x_pi(self, u, env):
        return math.pi

    def x_undef(self, u, env):
        return Obj(_h('undef'))

    def x_gconst(self, u, env):
        return Obj(_h('gconst', u.args[0].split('.')[-1]))

    def x_clsv(self, u, env):
        return Obj(_h('clsv', u.args[0]))

    def x_ext(self, u, env):
        return Obj(_h('ext', u.args[0].split('.')[-1]))

    def x_idx(self, u, env):
        return env.get(u, 0)

    def x_cv(self, u, env):
        return env.get(u, Obj(_h('cv')))

    def x_cel(self, u, env):
        base = env.get(u.args[0])
        key = (rnd(base), tuple(self.hv(a, env) for a in u.args[1:]))
        return self.typedv(u.args[0].args[1], _h('cel', key))

    def typedv(self, kind, h):
        if kind == 'bool':
            return self.hash('tb', h) % 2 == 0
        if kind == 'int':
            return self.hash('ti', h) % 5
        if kind == 'real':
            return self.real(h)
        return Obj(self.hash('to', h))

    def x_sym(self, u, env):
        k = u.args[1]
        h = _h('sym', u.args[0])
        if k == 'real':
            return self.atom(h, lambda: self.real(h, u.args[0]))
        if k == 'int':
            return self.whole(h, lambda: self.hash('i', h) % 6)
        if k == 'bool':
            return self.atom(h, lambda: self.hash('b', h) % 2 == 0)
        return self.opaque(u, ('sym', u.args[0]))

    def x_el(self, u, env):
        kind, nm = u.args[0], u.args[1]
        at = tuple(self.hv(a, env) for a in u.args[2:])
        if at and at[0][0] == 'f' and at[0][1] < 0 and nm in t.EL_LEN:
            # counted from the end
            n = self.ev(t.EL_LEN[nm], {})
            if isinstance(n, (int, float)) and n + at[0][1] >= 0:
                at = (rnd(n + at[0][1]),) + at[1:]
        key = ('el', kind, nm if isinstance(nm, str) else self.hv(nm, env), at)
        h = _h(key)
        if isinstance(nm, str):
            short = nm.split('.')[-1]
        else:
            short = nm.args[1] if nm.op == 'attr' else nm.args[0] if nm.op == 'sym' else None
        israndom = isinstance(nm, T) and nm.op == 'app' and nm.args[0] == 'rand'
        if kind == 'int':
            if short is None and nm.op == 'app' and nm.args[0] == 'cell_lists.iter_nearest_neighbors':
                return self.whole(h, lambda: self.hash('i', h) % 4)
            return self.whole(h, lambda: (self.hash('i', h) % 6) if short in INTS else (0, 1, 2, 3, 4, 5, -1, -2)[self.hash('i', h) % 8])
        if kind == 'bool':
            return self.atom(h, lambda: self.hash('b', h) % 2 == 0)
        if israndom:
            return self.atom(h, lambda: self.unit(h))
        return self.atom(h, lambda: self.real(h, short))

    def x_len0(self, u, env):
        h = _h('len0', u.args[0] if isinstance(u.args[0], str) else self.hv(u.args[0], env))
        return self.whole(h, lambda: (3, 4, 5, 2, 6, 1, 7, 0, 3, 5)[self.hash('n', h) % 10], 0)

    x_len1 = x_len0

    def x_add(self, u, env):
        s = 0
        for a in u.args:
            s = s + self.num(self.ev(a, env))
        return s

    def x_mul(self, u, env):
        s = 1
        for a in u.args:
            v = self.num(self.ev(a, env))
            s = s * v
        return s

    def x_pow(self, u, env):
        b = self.num(self.ev(u.args[0], env))
        e = self.num(self.ev(u.args[1], env))
        if b != b or e != e:
            return NANV
        try:
            if float(e).is_integer():
                if e < 0 and abs(b) < NIL:
                    return NANV
                return b ** int(e)
            if b > 0:
                return b ** e
        except (OverflowError, ZeroDivisionError):
            return NANV
        if b == 0 and e > 0:
            return 0.0
        return NANV

    def x_not(self, u, env):
        return not self.truthv(self.ev(u.args[0], env))

    def x_and(self, u, env):
        r = True
        for a in u.args:
            if not self.truthv(self.ev(a, env)):
                r = False
                if not self.record:
                    return False
        if self.record:
            self.note('gate', u, env)
        return r

    def x_or(self, u, env):
        r = False
        for a in u.args:
            if self.truthv(self.ev(a, env)):
                r = True
                if not self.record:
                    return True
        if self.record:
            self.note('gate', u, env)
        return r

    def note(self, kind, u, env):
        if self.record:
            k = (u, tuple(sorted((x.uid, rnd(env[x])) for x in t.free(u) if x in env)))
            k = repr((u.uid, k[1]))
            if k not in self.seen and len(self.tests) < 400:
                self.seen.add(k)
                self.tests.append((kind, u, {x: env[x] for x in t.free(u) if x in env}))

    def behind(self, c, env, f):
        """f is seen only where c holds, under the conditions around it"""
        if self.path and len(self.path) < 5:
            g = t.and_(*(self.path + [c]))
            if g.op == 'and' and not any(x.op in ('idx', 'cv') and x not in env for x in t.free(g)):
                self.note('gate', g, env)
        self.path.append(c)
        try:
            return f()
        finally:
            self.path.pop()

    def x_lt(self, u, env):
        a, b = self.num(self.ev(u.args[0], env)), self.num(self.ev(u.args[1], env))
        self.note('cmp', u, env)
        return a - b < -EPS if not (math.isinf(a) or math.isinf(b)) else a < b

    def x_le(self, u, env):
        a, b = self.num(self.ev(u.args[0], env)), self.num(self.ev(u.args[1], env))
        self.note('cmp', u, env)
        return a - b <= EPS if not (math.isinf(a) or math.isinf(b)) else a <= b

    def x_eq(self, u, env):
        a, b = self.ev(u.args[0], env), self.ev(u.args[1], env)
        self.note('cmp' if isinstance(a, (int, float)) or isinstance(b, (int, float)) else 'eq', u, env)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        na, nb = isinstance(a, (int, float)), isinstance(b, (int, float))
        if na and isinstance(b, Obj):
            b = self.num(b)
            nb = True
        if nb and isinstance(a, Obj):
            a = self.num(a)
            na = True
        if na and nb:
            return abs(a - b) <= EPS if not (math.isinf(a) or math.isinf(b)) else a == b
        return type(a) is type(b) and a == b

    def x_truth(self, u, env):
        v = self.ev(u.args[0], env)
        if isinstance(v, Obj):
            self.note('truth', u, env)
        return self.truthv(v)

    def x_isnan(self, u, env):
        v = self.ev(u.args[0], env)
        self.note('isnan', u, env)
        if isinstance(v, Obj):
            return self.hash('isnan', v.h) % 4 == 0
        return isinstance(v, float) and v != v

    def x_callable(self, u, env):
        return self.coin(u, env, 'callable', self.hv(u.args[0], env))

    def coin(self, u, env, *key):
        self.note('coin', u, env)
        h = self.hash(*key)
        self.lastcoin = h
        return self.over.get(('coin', h), h % 2 == 0)

    def x_in(self, u, env):
        return self.coin(u, env, 'in', self.hv(u.args[0], env), self.hv(u.args[1], env))

    def x_raised(self, u, env):
        return self.coin(u, env, 'raised', self.hv(u.args[1], env), self.hv(u.args[0], env))

    def x_isinst(self, u, env):
        v = self.ev(u.args[0], env)
        name = u.args[1].args[0] if isinstance(u.args[1], T) else '?'
        if name == '?':
            return bool(self.hash('isinst', *[self.hv(a, env) for a in u.args]) % 2)
        if isinstance(v, bool):
            return name in ('bool', 'int')
        if isinstance(v, str):
            return name in ARCH['str']
        if v is None:
            return name == 'NoneType'
        h = self.hv(u.args[0], env)
        cls = self.pools.classes.get(label(u.args[0]), ())
        arche = []
        for c in sorted(cls):
            arche.extend(k for k, sup in ARCH.items() if c in sup)
            if c not in ARCH:
                arche.append(c)
        arche = sorted(set(arche)) + ['?other']
        a = arche[self.hash('cls', h) % len(arche)]
        ok = ('clsover', h)
        self.note('class', u, env)
        self.lastclass = ok, arche
        if ok in self.over:
            a = self.over[ok]
        return name == a or name in ARCH.get(a, ())

    def x_ite(self, u, env):
        c = self.truthv(self.ev(u.args[0], env))
        if self.record:
            # visit both arms so that the tests they contain are known
            x = self.behind(u.args[0], env, lambda: self.ev(u.args[1], env))
            y = self.behind(t.not_(u.args[0]), env, lambda: self.ev(u.args[2], env))
            return x if c else y
        return self.ev(u.args[1] if c else u.args[2], env)

    def struct(self, op, vals):
        return (op,) + tuple(vals)

    def x_vec(self, u, env):
        return ('seq',) + tuple(self.ev(a, env) for a in u.args)

    x_tup = x_vec
    x_list = x_vec

    def x_dict(self, u, env):
        items = [(self.hv(k, env), self.ev(v, env)) for k, v in u.args]
        if all(k.op in ('str', 'num') for k, _ in u.args):
            items.sort(key=lambda kv: repr(kv[0]))
        return ('dict',) + tuple((k, v) for k, v in items)

    def x_lam(self, u, env):
        n = self.ev(u.args[1], env)
        out = []
        for i in self.samples(n):
            e = dict(env)
            e[u.args[0]] = i
            out.append(self.ev(u.args[2], e))
        return ('lam', n) + tuple(out)

    def x_alam(self, u, env):
        out = []
        for i in (0, 1, 3):
            e = dict(env)
            e[u.args[0]] = i
            out.append(self.ev(u.args[1], e))
        return ('alam',) + tuple(out)

    def x_mapl(self, u, env):
        n = self.ev(u.args[1], env)
        out = []
        for i in self.samples(n):
            e = dict(env)
            e[u.args[0]] = i
            if self.truthv(self.ev(u.args[2], e)):
                out.append((i, self.ev(u.args[3], e)))
        if u.args[2] is t.TRUE:
            return ('lam', n) + tuple(x for _, x in out)
        return ('cmp', n) + tuple(out)

    x_cmp = x_mapl

    def x_mapflat(self, u, env):
        n = self.ev(u.args[1], env)
        out = []
        for i in self.samples(n):
            e = dict(env)
            e[u.args[0]] = i
            out.append(self.ev(u.args[2], e))
        return ('flat', n) + tuple(out)

    def x_cat(self, u, env):
        return ('catl',) + tuple(self.ev(a, env) for a in u.args)

    x_lcat = x_cat

    def x_sum(self, u, env):
        n = self.ev(u.args[1], env)
        s = 0.0
        for k, i in enumerate(self.samples(n)):
            e = dict(env)
            e[u.args[0]] = i
            w = 0.5 + self.unit(_h('w', i, rnd(n)))
            s += w * self.num(self.ev(u.args[2], e))
        return s

    def x_exists(self, u, env):
        n = self.ev(u.args[1], env)
        r = False
        for i in self.samples(n):
            e = dict(env)
            e[u.args[0]] = i
            if self.truthv(self.ev(u.args[2], e)):
                r = True
        return r

    def x_fnt(self, u, env):
        return ('fnt',) + tuple(rnd(self.ev(a, env)) for a in u.args)

    def x_attr(self, u, env):
        return self.opaque(u, ('attr', u.args[1], self.hv(u.args[0], env)))

    def x_item(self, u, env):
        b, k = self.ev(u.args[0], env), self.ev(u.args[1], env)
        if isinstance(b, tuple) and b and b[0] == 'seq' and isinstance(k, int) and not isinstance(k, bool) and -len(b) + 1 <= k < len(b) - 1:
            return b[1:][k]
        if u.args[0].op == 'lout' or (u.args[0].op == 'item' and self.root(u).op == 'lout'):
            r = self.root(u)
            return self.typedv(r.args[0].args[2][r.args[1]].args[1], _h('it', rnd(b), rnd(k)))
        return self.opaque(u, ('item', rnd(b), rnd(k)))

    def root(self, u):
        while u.op == 'item':
            u = u.args[0]
        return u

    # -- uninterpreted and interpreted functions
    def x_app(self, u, env):
        nm = u.args[0]
        if nm in FUN1 and len(u.args) == 2:
            v = self.ev(u.args[1], env)
            x = self.num(v)
            if x != x:
                return NANV
            if nm in ('floor', 'trunc'):
                self.note('int', u, env)
            try:
                r = FUN1[nm](x)
                if r is not None:
                    return r
            except (ValueError, OverflowError):
                pass
            return NANV
        if nm == 'arctan2' and len(u.args) == 3:
            a, b = (self.num(self.ev(x, env)) for x in u.args[1:])
            if a != a or b != b:
                return NANV
            return math.atan2(a if abs(a) > 1e-12 else 0.0, b if abs(b) > 1e-12 else 0.0)
        if nm == 'min2':
            return min(self.num(self.ev(a, env)) for a in u.args[1:])
        if nm == 'isclose':
            a, b = self.ev(u.args[1], env), self.ev(u.args[2], env)
            self.note('cmp', t.mk('eq', u.args[1], u.args[2]), env)
            if isinstance(a, tuple) or isinstance(b, tuple):
                return same(a, b)
            a, b = self.num(a), self.num(b)
            return abs(a - b) <= 1e-6
        if nm == 'len':
            v = self.ev(u.args[1], env)
            if isinstance(v, tuple) and v[0] == 'seq':
                return len(v) - 1
            if isinstance(v, tuple) and v[0] == 'lam':
                return v[1]
            return self.lenof(v, lambda: (3, 4, 5, 2, 6, 1, 7, 0, 3, 5)[self.hash('n', rnd(v)) % 10])
        if nm == 'div0':
            return NANV
        if nm == 'BitOr' and len(u.args) == 3:
            # union: order, grouping and repetition do not matter
            vs = [self.ev(a, env) for a in u.args[1:]]
            if all(isinstance(v, Obj) or isinstance(v, tuple) and v and v[0] == 'union' for v in vs):
                parts = {y for v in vs for y in (v[1:] if isinstance(v, tuple) else (rnd(v),))}
                return ('union',) + tuple(sorted(parts, key=repr))
        if nm in ('amax', 'amin') and len(u.args) == 2 and u.args[1].op == 'vec':
            vs = self.ev(u.args[1], env)[1:]
            if all(not isinstance(x, tuple) for x in vs) and vs:
                vs = [self.num(x) for x in vs]
                return max(vs) if nm == 'amax' else min(vs)
        if nm == 'exc':
            return ('exc', self.ev(u.args[1], env))
        if nm == 'stored' and len(u.args) == 4:
            # a place that holds what it held before is as good as not written
            v = self.ev(u.args[2], env)
            if same(v, self.ev(u.args[3], env)):
                return 0.0
            return self.real(self.hash('stored', rnd(self.ev(u.args[1], env)), rnd(v)))
        if nm in ('truth',):
            return self.truthv(self.ev(u.args[1], env))
        return self.opaque(u, ('app', nm) + tuple(self.hv(a, env) for a in u.args[1:]))

    # -- loops
    def loop(self, L, env):
        f = tuple(x for x in t.free(L) if x in env)
        k = ('L', L, tuple(rnd(env[x]) for x in f))
        r = self.memo.get(k)
        if r is not None:
            return r
        idx, n, cvs, inits, nexts, stop = L.args
        nv = self.ev(n, env)
        smp = self.samples(nv)[:2]
        col = [_h('c0', str(cv.args[1]), rnd(self.ev(i, env)), rnd(nv)) for cv, i in zip(cvs, inits)]
        stopsig = 0
        rounds = 2
        for rd in range(rounds):
            vals = []
            new = [[] for _ in cvs]
            ss = []
            for i in smp:
                e = dict(env)
                e[idx] = i
                for cv, c in zip(cvs, col):
                    e[cv] = self.cvval(cv, _h(c, i))
                sv = self.truthv(self.ev(stop, e))
                ss.append(sv)
                for j, nx in enumerate(nexts):
                    new[j].append(rnd(self.ev(nx, e)))
            stopsig = _h(stopsig, ss)
            col = [_h(c, tuple(x), stopsig if stop is not t.FALSE else 0) for c, x in zip(col, new)]
        if not smp:
            col = [_h('empty', rnd(self.ev(i, env))) for i in inits]
        r = (col, _h('loop', tuple(sorted(col)), stopsig, rnd(nv), len(smp)), smp)
        self.memo[k] = r
        return r

    def cvval(self, cv, h):
        k = cv.args[1]
        return self.typedv(k if k in ('bool', 'real', 'int') else 'any', h)

    def loopenv(self, L, env):
        col, sig, smp = self.loop(L, env)
        e = dict(env)
        e[L.args[0]] = (self.samples(9) if not smp else smp)[-1]
        for cv, c in zip(L.args[2], col):
            e[cv] = self.cvval(cv, _h(c, 'x'))
        return e, sig

    def x_loop(self, u, env):
        return Obj(self.loop(u, env)[1])

    def x_lout(self, u, env):
        L, j = u.args
        col, sig, smp = self.loop(L, env)
        if not smp:
            v = self.ev(L.args[3][j], env)
            if not isinstance(v, tuple):
                return v
        return self.typedv(L.args[2][j].args[1], _h('lout', col[j]))

    def x_lexit(self, u, env):
        L = u.args[0]
        col, sig, smp = self.loop(L, env)
        if not smp:
            return False
        return self.hash('lexit', sig) % 2 == 0

    def x_lval(self, u, env):
        L, x = u.args
        e, sig = self.loopenv(L, env)
        v = self.ev(x, e)
        if t.is_boolish(x):
            return self.hash('lvb', sig, rnd(v)) % 2 == 0
        return self.typedv('real' if isinstance(v, float) else 'any', _h('lval', sig, rnd(v)))

    # -- traces
    def x_trace(self, u, env):
        return ('trace',) + tuple(self.flat(u, env))

    def happened(self, x, env):
        pass

    def foresee(self, x, env):
        pass

    def aside(self, u, env):
        self.flat(u, env)

    def flat(self, u, env):
        t.tick()
        out = []
        for x in u.args:
            o = x.op
            if o == 'ev':
                out.append((x.args[0],) + tuple(self.hv(a, env) for a in x.args[1:] if a.op != 'tag'))
                self.happened(x, env)
            elif o == 'evset':
                out.extend(sorted(((y.args[0],) + tuple(self.hv(a, env) for a in y.args[1:]) for y in x.args), key=repr))
            elif o == 'tif':
                self.foresee(x, env)
                c = self.truthv(self.ev(x.args[0], env))
                if not self.record:
                    out.extend(self.flat(x.args[1] if c else x.args[2], env))
                    continue
                n = t.not_(x.args[0])
                if (x, c) not in self.seen_tif:
                    # gates inside the branch not taken are met as well, once
                    self.seen_tif.add((x, c))
                    self.behind(n if c else x.args[0], env, lambda: self.aside(x.args[2] if c else x.args[1], env))
                out.extend(self.behind(x.args[0] if c else n, env, lambda: self.flat(x.args[1] if c else x.args[2], env)))
            elif o == 'tloop':
                L = x.args[0]
                col, sig, smp = self.loop(L, env)
                body = []
                for i in smp:
                    e = dict(env)
                    e[L.args[0]] = i
                    for cv, c in zip(L.args[2], col):
                        e[cv] = self.cvval(cv, _h(c, i, 'x'))
                    body.append(tuple(self.flat(x.args[1], e)))
                if any(body):
                    out.append(('loop', rnd(self.ev(L.args[1], env)), tuple(body)))
            elif o == 'tlast':
                e, sig = self.loopenv(x.args[0], env)
                b = self.flat(x.args[1], e)
                if b:
                    out.append(('last', tuple(b)))
            elif o == 'tfin':
                # what failing calls of the body leave undone is done all the same
                b = self.flat(x.args[0], env)
                f = self.flat(x.args[1], env)
                for y in b:
                    out.append(y + (('finally',) + tuple(f),) if f and y[0] not in ATOMIC_EV else y)
                out.extend(f)
            elif o == 'tpart':
                b = self.flat(x.args[0], env)
                if b:
                    out.append(('part', tuple(b)))
            else:
                out.append((o, self.hv(x, env)))
        return out


class Fn:
    """an array of unknown size: index -> value"""
    __slots__ = ('f', 'memo')

    def __init__(self, f):
        self.f, self.memo = f, {}

    def __call__(self, k):
        kk = rnd(k)
        if kk not in self.memo:
            self.memo[kk] = self.f(k)
        return self.memo[kk]


CAP = 5


class Fin(Ev):
    """interpretation in a finite model: collections have at most a handful of
    elements, and sums, selections and recurrences are unfolded over all of them"""

    def __init__(self, *a, **k):
        Ev.__init__(self, *a, **k)
        self.inexact = False
        self.prefix = False     # only the first events of an endless loop were seen
        self.inner = {}
        self.fresh()

    def fresh(self):
        """before a run: nothing has happened yet"""
        self.memo = {}
        self.runs = {}
        self.endless = set()
        self.times = {}         # event -> how often it has happened
        self.which = {}         # result of an event, as the term names it -> which one it was
        self.cut = False

    # -- results of events are told apart by their order at run time
    def happened(self, x, env):
        g = x.args[-1]
        if not isinstance(g, T) or g.op != 'tag':
            return
        k = self.hv(g.args[0].args, env)
        e = (x.args[0],) + tuple(self.hv(a, env) for a in x.args[1:-1] if a.op != 'heap')
        n = self.times.get(e, 0)
        self.times[e] = n + 1
        self.which[k] = (e, n)

    def foresee(self, x, env):
        """a branch may be chosen by what its own first events return"""
        rs = self.inner.get(x)
        if rs is None:
            rs = self.inner[x] = [u for u in t.subterms(x.args[0]) if u.op == 'app' and u.args[0] == 'res']
        for r in rs:
            if any(y.op in ('idx', 'cv') and y not in env for y in t.free(r)):
                continue
            for b in x.args[1:]:
                if self.hv(r.args, env) in self.which:
                    break
                self.aside(b, env, True)

    def aside(self, u, env, learn=False):
        keep = self.memo, self.runs, self.times, self.which, self.cut, self.prefix, self.inexact
        self.memo, self.runs, self.times, self.which = [dict(x) for x in keep[:4]]
        was = keep[3]
        try:
            self.flat(u, env)
        finally:
            if learn:
                was.update({k: v for k, v in self.which.items() if k not in was})
            self.memo, self.runs, self.times, self.which, self.cut, self.prefix, self.inexact = keep

    def real(self, h, name=None):
        # every order of magnitude against every other
        v = Ev.real(self, h, name)
        return v * (1, 1, 0.3, 1, 4, 1, 20)[_h('scale', self.seed, h) % 7]

    def size(self, h):
        return (2, 3, 1, 3, 0, 4, 2)[self.hash('n', h) % 7]

    def x_len0(self, u, env):
        h = _h('len0', u.args[0] if isinstance(u.args[0], str) else self.hv(u.args[0], env))
        return self.whole(h, lambda: self.size(h), 0)

    x_len1 = x_len0

    def samples(self, n):
        if isinstance(n, Obj):
            n = 2 + _h(self.seed, 'dom', n.h) % 3
        n = self.num(n)
        if n != n:
            return []
        if n == math.inf:
            return list(range(CAP))     # the first ones stand for all
        if n > CAP + 1:
            self.inexact = True
            n = CAP
        return list(range(int(math.floor(n + 1e-9))))

    def truthv(self, v):
        if isinstance(v, tuple) and v and v[0] in ('seq', 'dict'):
            return len(v) > 1
        return Ev.truthv(self, v)

    def x_truth(self, u, env):
        if t.rank(u.args[0]) > 0:
            v = self.ev(u.args[0], env)
            if isinstance(v, tuple) and v and v[0] in ('seq', 'vec'):
                if len(v) == 2:
                    return self.truthv(v[1])
                self.inexact = True     # the truth of an array
                return bool(self.hash('truth', self.hv(u.args[0], env)) % 2)
        return Ev.x_truth(self, u, env)

    def x_lam(self, u, env):
        return ('seq',) + Ev.x_lam(self, u, env)[2:]

    def x_mapl(self, u, env):
        out = []
        for i in self.samples(self.ev(u.args[1], env)):
            e = dict(env)
            e[u.args[0]] = i
            if self.truthv(self.ev(u.args[2], e)):
                out.append(self.ev(u.args[3], e))
        return ('seq',) + tuple(out)

    x_cmp = x_mapl

    def concat(self, tag, parts):
        if all(isinstance(p, tuple) and p and p[0] == 'seq' for p in parts):
            return ('seq',) + tuple(x for p in parts for x in p[1:])
        return (tag,) + tuple(parts)

    def x_mapflat(self, u, env):
        return self.concat('flat', Ev.x_mapflat(self, u, env)[2:])

    def x_cat(self, u, env):
        return self.concat('catl', [self.ev(a, env) for a in u.args])

    x_lcat = x_cat

    def x_sum(self, u, env):
        s = 0
        for i in self.samples(self.ev(u.args[1], env)):
            e = dict(env)
            e[u.args[0]] = i
            s = s + self.num(self.ev(u.args[2], e))
        return s

    def x_store(self, u, env):
        c, k, v = [self.ev(a, env) for a in u.args[:3]]
        if isinstance(k, float) and k == int(k):
            k = int(k)
        if isinstance(c, tuple) and c and c[0] == 'seq' and isinstance(k, int) and not isinstance(k, bool) and -len(c) < k < len(c) - 1 \
                and k >= -(len(c) - 1):
            b = list(c[1:])
            b[k] = v
            return ('seq',) + tuple(b)
        if isinstance(c, tuple) and c and c[0] == 'seq' and isinstance(k, tuple) and k and k[0] == 'seq':
            b, ks = list(c[1:]), list(k[1:])
            if ks and all(isinstance(x, bool) for x in ks) and len(ks) == len(b):
                ks = [j for j, x in enumerate(ks) if x]
            if all(isinstance(x, int) and not isinstance(x, bool) and -len(b) <= x < len(b) for x in ks):
                vs = v[1:] if isinstance(v, tuple) and v and v[0] == 'seq' and len(v) - 1 == len(ks) else [v] * len(ks)
                for x, y in zip(ks, vs):
                    b[x] = y
                return ('seq',) + tuple(b)
        if isinstance(c, tuple) and c and c[0] == 'dict':
            kk = rnd(k)
            items = [(x, y) for x, y in c[1:] if x != kk] + [(kk, v)]
            items.sort(key=lambda kv: repr(kv[0]))
            return ('dict',) + tuple(items)
        self.missing(c, k)
        return Ev.x_default(self, u, env)

    def x_alam(self, u, env):
        def f(k):
            e = dict(env)
            e[u.args[0]] = k
            return self.ev(u.args[1], e)
        return Fn(f)

    def pick(self, b, k):
        if isinstance(k, float) and k == k and abs(k) < 1e9 and k == int(k):
            k = int(k)
        if isinstance(b, Fn):
            return b(k)
        if isinstance(b, tuple) and b and b[0] == 'seq' and isinstance(k, int) and not isinstance(k, bool) and -len(b) + 1 <= k < len(b) - 1:
            return b[1:][k]
        return None

    def x_cel(self, u, env):
        b = env.get(u.args[0])
        for a in u.args[1:]:
            k = self.ev(a, env)
            r = self.pick(b, k)
            if r is None:
                self.missing(b, k)
                r = self.typedv(u.args[0].args[1], _h('cel', rnd(b), rnd(k)))
            b = r
        return b

    def x_item(self, u, env):
        b, k = self.ev(u.args[0], env), self.ev(u.args[1], env)
        r = self.pick(b, k)
        if r is None:
            self.missing(b, k)
        return r if r is not None else Ev.x_item(self, u, env)

    def missing(self, b, k):
        """an element read or written that is not there: what happens then is no concern of a finite model"""
        if isinstance(b, tuple) and b and b[0] == 'seq' and isinstance(k, (int, float)) and not isinstance(k, bool):
            self.inexact = True

    def x_el(self, u, env):
        nm = u.args[1]
        if len(u.args) > 2 and isinstance(nm, str) and nm in t.EL_LEN:
            k, n = self.ev(u.args[2], env), self.ev(t.EL_LEN[nm], {})
            if isinstance(k, (int, float)) and not isinstance(k, bool) and isinstance(n, (int, float)) and not -n <= k < n:
                self.inexact = True
        return Ev.x_el(self, u, env)

    def x_in(self, u, env):
        a, b = self.ev(u.args[0], env), self.ev(u.args[1], env)
        if isinstance(b, tuple) and b and b[0] == 'seq':
            return any(same(a, x) for x in b[1:])
        if isinstance(b, tuple) and b and b[0] == 'dict':
            return any(rnd(a) == k for k, _ in b[1:])
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        return Ev.x_in(self, u, env)

    def x_app(self, u, env):
        nm = u.args[0]
        if nm == 'npcopy' and len(u.args) == 2:
            v = self.ev(u.args[1], env)
            if isinstance(v, tuple) and v and v[0] == 'seq':
                return v
        if nm in ('argsort', 'sorted', 'cumsum') and len(u.args) == 2 and self.ev(u.args[1], env) == ('seq',):
            return ('seq',)
        if nm in ('amax', 'amin', 'argmax', 'argmin', 'asum', 'mean', 'cumsum', 'argsort', 'sorted') and len(u.args) == 2:
            v = self.ev(u.args[1], env)
            if isinstance(v, tuple) and v and v[0] == 'seq' and len(v) > 1 and all(isinstance(x, (int, float)) and x == x for x in v[1:]):
                xs = [float(x) if isinstance(x, bool) else x for x in v[1:]]
                if nm == 'amax':
                    return max(xs)
                if nm == 'amin':
                    return min(xs)
                if nm == 'argmax':
                    return xs.index(max(xs))
                if nm == 'argmin':
                    return xs.index(min(xs))
                if nm == 'asum':
                    return sum(xs)
                if nm == 'mean':
                    return sum(xs) / len(xs)
                if nm == 'sorted':
                    return ('seq',) + tuple(sorted(xs))
                if nm == 'argsort':
                    return ('seq',) + tuple(sorted(range(len(xs)), key=lambda i: xs[i]))
                out, s = [], 0
                for x in xs:
                    s += x
                    out.append(s)
                return ('seq',) + tuple(out)
        if nm == 'len' and len(u.args) == 2:
            v = self.ev(u.args[1], env)
            if isinstance(v, tuple) and v and v[0] in ('seq', 'dict'):
                return len(v) - 1
            return self.lenof(v, lambda: self.size(rnd(v)))
        if nm == 'res':
            w = self.which.get(self.hv(u.args, env))
            if w is not None:
                return self.opaque(u, ('res',) + w)
        if nm == 'rankof' and len(u.args) == 3:
            m, i = self.ev(u.args[1], env), self.ev(u.args[2], env)
            if isinstance(m, tuple) and m and m[0] == 'seq' and isinstance(i, int):
                return sum(1 for x in m[1:i + 1] if self.truthv(x))
        return Ev.x_app(self, u, env)

    # -- recurrences
    def loop(self, L, env, body=None, last=None, out=None):
        """the iterations made, the one that ended early, and the final values; the events
        of each iteration (body) happen before the next one starts"""
        f = tuple(x for x in t.free(L) if x in env)
        k = ('L', L, tuple(rnd(env[x]) for x in f))
        r = self.runs.get(k)
        if r is not None:
            self.prefix = self.prefix or k in self.endless
            # what the loop does not depend on may have other values this time
            own = [L.args[0]] + list(L.args[2])
            full, ex = [{**env, **{x: e[x] for x in own}} for e in r[0]], r[1] and {**env, **{x: r[1][x] for x in own}}
            r = (full, ex, r[2])
            if body is not None:
                for e in r[0]:
                    out.extend(self.flat(body, e))
                    if self.cut:
                        break
            return r
        idx, n, cvs, inits, nexts, stop = L.args
        nv = self.ev(n, env)
        if isinstance(nv, Obj):
            nv = 2 + _h(self.seed, 'dom', nv.h) % 3
        nv = self.num(nv)
        if nv != nv:
            nv = 0
        cur = [self.ev(i, env) for i in inits]
        full, ex = [], None
        i = 0
        while i < nv - 1e-9:
            if i > (CAP if nv == math.inf else 2 * CAP):
                if nv == math.inf:
                    self.prefix = self.cut = True
                    self.endless.add(k)
                else:
                    self.inexact = True
                break
            e = dict(env)
            e[idx] = i
            for cv, c in zip(cvs, cur):
                e[cv] = c
            if last is not None:
                # what happens before an early end is known when the end is decided
                times = dict(self.times)
                self.flat(last, e)
                self.times = times
            if self.truthv(self.ev(stop, e)):
                ex = e
                break
            full.append(e)
            if body is not None:
                out.extend(self.flat(body, e))
                if self.cut:
                    break
            cur = [self.ev(nx, e) for nx in nexts]
            i += 1
        r = (full, ex, cur)
        self.runs[k] = r
        return r

    def x_loop(self, u, env):
        full, ex, cur = self.loop(u, env)
        return ('seq', len(full), ex is not None) + tuple(rnd(c) for c in cur)

    def x_lout(self, u, env):
        return self.loop(u.args[0], env)[2][u.args[1]]

    def x_lexit(self, u, env):
        return self.loop(u.args[0], env)[1] is not None

    def x_lval(self, u, env):
        ex = self.loop(u.args[0], env)[1]
        if ex is None:
            return Obj(_h('noexit'))
        return self.ev(u.args[1], ex)

    def flat(self, u, env):
        t.tick()
        out = []
        for j, x in enumerate(u.args):
            if self.cut:
                break
            if x.op == 'tloop':
                y = u.args[j + 1] if j + 1 < len(u.args) else None
                last = y.args[1] if y is not None and y.op == 'tlast' and y.args[0] is x.args[0] else None
                self.loop(x.args[0], env, x.args[1], last, out)
            elif x.op == 'tlast':
                ex = self.loop(x.args[0], env)[1]
                if ex is not None:
                    out.extend(self.flat(x.args[1], ex))
            else:
                out.extend(Ev.flat(self, t.mk('trace', x), env))
        return out


def _sq(x):
    # what a comparison takes for zero has no length either
    if x < SQEPS:
        return 0.0 if x >= -SQEPS else None
    return math.sqrt(x)


FUN1 = {
    'sqrt': _sq, 'exp': lambda x: math.exp(x) if x < 200 else math.inf, 'log': lambda x: math.log(x) if x > 0 else None,
    'cos': math.cos, 'sin': math.sin, 'tan': math.tan, 'abs': abs, 'floor': lambda x: math.floor(x + 1e-9),
    'trunc': lambda x: math.trunc(x + (1e-9 if x >= 0 else -1e-9)), 'arctan': math.atan,
    'arccos': lambda x: math.acos(x) if -1 <= x <= 1 else None, 'arcsin': lambda x: math.asin(x) if -1 <= x <= 1 else None,
    'round': lambda x: round(x),
}

# functions whose definitions are fixed and pairwise different: using one where
# another is meant is a difference, not an unknown
KNOWN = {'shared', 'outside', 'before init', 'astype:i', 'astype:b', 'sqrt', 'exp', 'log', 'cos', 'sin', 'tan', 'abs', 'floor', 'trunc', 'arctan', 'arctan2', 'min2', 'isclose', 'len', 'div0', 'amax', 'amin',
         'argmax', 'argmin', 'argsort', 'sorted', 'exc', 'res', 'rand', 'round', 'arccos', 'arcsin', 'str', 'uninit', 'cumsum', 'asum', 'mean',
         'npcopy', 'array', 'm.items', 'm.keys', 'm.values', 'm.get', 'os.path.join', 'os.path.abspath', 'os.path.normpath', 'os.path.dirname', 'os.path.basename', 'os.path.stem', 'os.path.ext', 'set', 'tuple', 'dict', 'missing', 'hash', 'm.startswith', 'm.endswith', 'new',
         'm.strip', 'm.lstrip', 'm.rstrip', 'm.copy', 'any', 'all'}


def heads(terms):
    fs, loops = set(), []
    for x in terms:
        for u in t.subterms(x):
            if u.op == 'isinst' and len(u.args) > 2:
                fs.add('isinst')
            if u.op == 'app':
                fs.add(u.args[0])
                if u.args[0] == 'res':
                    fs.add('ev:' + u.args[1].args[0])
                if u.args[0] == 'rand':
                    fs.add('rand:' + u.args[1].args[0])
            elif u.op == 'ev':
                fs.add('ev:' + u.args[0])
            elif u.op == 'loop':
                if u.args[2]:
                    loops.append((tuple(sorted(str(c.args[1]) for c in u.args[2])), u.args[5] is not t.FALSE))
                elif u.args[5] is not t.FALSE:
                    loops.append(((), True))
            elif u.op in ('mapflat', 'store', 'lcat', 'fnref', 'opaquepy', 'starstar', 'ext', 'BitOr', 'BitAnd', 'forever', 'missing'):
                fs.add(u.op + (':' + str(u.args[0]) if u.op in ('ext', 'fnref', 'opaquepy') else ''))
    return fs, loops


# methods the analysed tree defines: calling one that was not resolved is an unknown, not an effect
OWN = set()


class Verdict:
    def __init__(self, status, detail='', counter=None):
        self.status, self.detail, self.counter = status, detail, counter


def compare(code, spec, seed=1, rounds=24, budget=4000, constrain=None, steps=1200000):
    """code, spec: dict observable -> closed term"""
    cn = Canon()
    diff = []
    proved = 0
    names = sorted(set(code) | set(spec))
    fs = [Norm(1), Norm(6), Norm(24)]
    nf = fs[0]
    code = {o: nf.alpha(x) for o, x in code.items()}
    spec = {o: nf.alpha(x) for o, x in spec.items()}
    for o in names:
        a, b = code.get(o), spec.get(o)
        if a is None or b is None:
            diff.append(o)
        elif a is b or cn.id(a) == cn.id(b):
            proved += 1
        else:
            for f in fs:
                try:
                    na, nb = f(a), f(b)
                    if na is nb or cn.id(na) == cn.id(nb):
                        proved += 1
                        break
                except (TooBig, RecursionError):
                    pass
            else:
                diff.append(o)
    info = {'observables': len(names), 'proved': proved, 'fingerprinted': 0, 'interpretations': 0, 'tests': 0, 'steps': 0}
    if not diff:
        return Verdict('EQ'), info
    missing = [o for o in diff if o not in code or o not in spec]
    both = [o for o in diff if o in code and o in spec]
    if missing:
        o = missing[0]
        return Verdict('NEQ', 'observable %s exists only in the %s' % (o, 'code' if o in code else 'definition'), o), info
    pools = Pools([code[o] for o in both] + [spec[o] for o in both])
    rng = random.Random(seed)

    order = sorted(both, key=lambda o: (code[o].op != 'trace', both.index(o)))
    excs = [{('exc', ('exc', u.args[1].args[0])) for o in both for u in t.subterms(x[o])
             if u.op == 'app' and u.args[0] == 'exc' and u.args[1].op == 'str'} for x in (code, spec)]
    excs = excs[0] & excs[1]
    excs = excs if len(excs) > 1 else ()
    events = any(u.op == 'tag' for o in both for x in (code[o], spec[o]) for u in t.subterms(x))

    def trial(sd, over=None, record=False, tag='random', kind=Ev):
        e = kind(sd, pools, over, record)
        info['interpretations'] += 1
        e.shut = 0
        if constrain is not None and not constrain(e):
            return e, None
        d = None
        e.shut = 0
        if kind is Fin and events:
            va, vb = ({}, set()), ({}, set())
            for (vals, cut), obs in ((va, code), (vb, spec)):
                e.fresh()
                for o in order:
                    e.cut = e.prefix = False
                    vals[o] = e.ev(obs[o], {})
                    if e.prefix:
                        cut.add(o)
                    if e.cut:
                        cut.update(order)
        for o in order:
            if kind is Fin and events:
                a, b = va[0][o], vb[0][o]
                if o in va[1] or o in vb[1]:
                    if not (isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ('trace',)):
                        continue
                    # of a run that does not end only the beginning was seen
                    k = min(len(x) for x, cut in ((a, va[1]), (b, vb[1])) if o in cut)
                    a, b = a[:k], b[:k]
            else:
                a, b = e.ev(code[o], {}), e.ev(spec[o], {})
            if not same(a, b):
                if excs and all(isinstance(x, tuple) and x[:1] == ('exc',) and x in excs for x in (a, b)):
                    # both sides raise, and both know both errors: which of two comes first is left open
                    info['order'] = (o, a, b, tag)
                    break
                d = (o, a, b, tag)
                break
            if b in NOTHING or isinstance(b, tuple) and b and b[0] == 'exc':
                e.shut += 1
        info['steps'] += e.steps
        if kind is Fin and not e.inexact and not (events and any((o in va[1]) != (o in vb[1]) for o in order)):
            info['exact'] = info.get('exact', 0) + 1
        return e, d

    tests = []
    diffs = []
    sc = {u for o in both for u in t.subterms(code[o])}
    ss = {u for o in both for u in t.subterms(spec[o])}
    common = lambda u: u in sc and u in ss

    def search(kind, rounds, budget, steps):
        """interpretations of one kind: the first difference, or None"""
        tests, done = [], 0
        try:
            for r in range(rounds):
                sd = rng.randrange(1 << 30)
                rec = r < 6 or info['steps'] < 40000
                e, d = trial(sd, record=rec, kind=kind)
                done += 1
                if d and not (kind is Fin and e.inexact):
                    return sd, {}, d
                if rec:
                    tests.extend((sd, {}, e.shut, x) for x in e.tests)
        except t.OutOfTime:
            if done < 3 and kind is Ev:
                raise
            return None
        rng.shuffle(tests)
        # tests only one side makes come first; shared ones once each
        tests.sort(key=lambda x: common(x[3][1]))
        per, tried = {}, set()
        limit = info['steps'] + steps
        budget += info['interpretations']
        opened = [0]

        start = info['steps']
        # (a test nothing could be made of counts only when the time is short)
        steps_gone = lambda: info['steps'] - start > 100000

        def sweep(tests, depth):
            later = []
            per = {}
            for rank in range(3):
                for sd, base, shut, (knd, u, env) in tests:
                    if info['interpretations'] > budget or info['steps'] > limit or t.spent():
                        return None
                    key = (sd, u, tuple(sorted((x.uid, rnd(v)) for x, v in env.items())), len(base))
                    if per.get(u, 0) > rank or key in tried or (rank and common(u)):
                        continue
                    tried.add(key)
                    info['tests'] += 1
                    some = 0
                    for over in directed(sd, pools, knd, u, env, rng, common(u), kind, base, common):
                        some += 1
                        over = {**base, **over}
                        e, d = trial(sd, over, tag='boundary of ' + t.show(u)[:300], kind=kind)
                        if d and not (kind is Fin and e.inexact):
                            return sd, over, d
                        # a gate that kept the rest from showing is open now: go on from here
                        if depth < 3 and shut and e.shut < shut and opened[0] < 8:
                            opened[0] += 1
                            later.append((sd, over))
                    if some or steps_gone():
                        per[u] = per.get(u, 0) + 1
            for sd, over in later:
                e, d = trial(sd, over, record=True, kind=kind)
                sub = [(sd, over, e.shut, x) for x in e.tests]
                rng.shuffle(sub)
                sub.sort(key=lambda x: common(x[3][1]))
                hit = sweep(sub, depth + 1)
                if hit is not None:
                    return hit
            return None
        try:
            return sweep(tests, 0)
        except t.OutOfTime:
            info['cut'] = True
        return None

    ch, cl = heads([code[o] for o in both])
    sh, sl = heads([spec[o] for o in both])
    unknown = {h for h in ch - sh if h not in KNOWN and (not h.startswith('ev:') or h[5:] in OWN and h[3:5] == 'm.')}
    coll = {h for h in unknown if h.split(':')[0] in FINITE}
    lk = sorted(set(cl)) != sorted(set(sl)) and bool(set(cl) - set(sl))
    loops = any(u.op in COLLECTIONS for u in sc) or any(u.op in COLLECTIONS for u in ss)
    info['fingerprinted'] = len(both)
    # loops of one side only: sampled recurrences may differ in states they never reach,
    # sampled sums in the order of their terms
    state = any(u.op in COLLECTIONS and (u not in sc or u not in ss) for u in sc | ss)
    hit = search(Ev, rounds, budget, steps)
    if hit is not None and not (unknown or lk or state):
        return differs(hit), info
    fin = None
    if loops and not unknown - coll:
        fin = search(Fin, 8 * rounds, budget, steps)
        info['finite_model'] = True
    if fin is not None:
        return differs(fin), info
    if hit is None and 'order' in info:
        return Verdict('UNK', 'only in which of two errors is reported: ' + differs((0, {}, info.pop('order'))).detail), info
    if hit is None:
        return Verdict('EQF'), info
    if loops and not unknown - coll and not info.get('cut') and info.get('exact', 0) >= rounds:
        # the sampled recurrences differ in form, the finite models agree throughout
        info.pop('order', None)
        return Verdict('EQF'), info
    v = differs(hit)
    return Verdict('UNK', v.detail + '; not comparable: ' + (', '.join(sorted(unknown)) or 'loop structure'), v.counter), info


# graphs over collections, and the operators a finite model interprets exactly
COLLECTIONS = ('loop', 'lam', 'mapl', 'cmp', 'sum', 'exists', 'mapflat', 'tloop')
FINITE = ('mapflat', 'store', 'lcat', 'rankof')


# calls that leave nothing behind when they fail
ATOMIC_EV = {'os.chdir', 'os.getcwd'}
NOTHING = (('trace',), None, ('seq',))


def differs(hit):
    sd, over, (o, a, b, tag) = hit
    return Verdict('NEQ', 'observable %s: code value %s, definition value %s (%s)' % (o, fmtv(a), fmtv(b), tag), o)


def fmtv(v):
    s = repr(v)
    return s if len(s) < 200 else s[:200] + '...'


def directed(sd, pools, kind, u, env, rng, short=False, Kind=Ev, base=(), common=lambda u: True):
    """overrides that put the two sides on the boundary of one test"""
    base = dict(base)
    e = Kind(sd, pools, base)
    e.atoms, e.atomv = [], {}
    try:
        if kind == 'gate':
            r = satisfy(sd, pools, u, env, not e.truthv(e.ev(u, env)), rng, Kind, base)
            if r is not None:
                yield r
                # each condition that only one side asks about decides alone
                if u.op == 'and' and not short:
                    for a in [a for a in u.args if not common(a)][:4]:
                        x = satisfy(sd, pools, a, env, False, rng, Kind, {**base, **r})
                        if x is not None:
                            yield {**r, **x}
            return
        if kind == 'isnan':
            if u.args[0].op in ('add', 'mul', 'pow') or u.args[0].op == 'app' and u.args[0].args[0] in KNOWN:
                return      # only inputs may be absent, not results of arithmetic
            e.ev(u.args[0], env)
            keys = uniq(e.atoms)
            for k in keys[:4]:
                yield {k: NANV}
            return
        if kind == 'truth':
            v = e.ev(u.args[0], env)
            if isinstance(v, Obj):
                yield {('truth', v.h): not e.truthv(v)}
            return
        if kind == 'coin':
            v = e.ev(u, env)
            yield {('coin', e.lastcoin): not v}
            return
        if kind == 'class':
            v = e.ev(u, env)
            if hasattr(e, 'lastclass'):
                ok, arche = e.lastclass
                for a in arche:
                    yield {ok: a}
            return
        if kind == 'eq':
            a = e.ev(u.args[0], env)
            ka = uniq(e.atoms)
            e.atoms = []
            b = e.ev(u.args[1], env)
            kb = uniq(e.atoms)
            if ka:
                yield {ka[-1]: b}
            if kb:
                yield {kb[-1]: a}
            return
        if kind == 'int':
            f = lambda ev_: ev_.num(ev_.ev(u.args[1], env))
            x0 = f(e)
            if not (abs(x0) < 1e6):
                return
            targets = [math.floor(x0), math.floor(x0) + 0.5, -0.5]
        else:
            f = lambda ev_: ev_.num(ev_.ev(u.args[0], env)) - ev_.num(ev_.ev(u.args[1], env))
            x0 = f(e)
            targets = ([0.0, -1e-3] if x0 > 0 else [0.0, 1e-3]) if short else [0.0, 1e-3, -1e-3, 1.0, -1.0]
    except RecursionError:
        return
    keys = uniq(e.atoms)
    rng.shuffle(keys)
    if math.isinf(x0) or x0 != x0 and len(keys) < 2:
        return
    for tg in targets:
        for k, far in [(k, far) for far in (False, True) for k in keys[:6 if tg == targets[0] or not far else 0]]:
            over = solve(sd, pools, f, k, tg, Kind, base, far)
            if over is not None:
                yield over
                if far:
                    # the neighbourhood of what was hard to reach
                    near = [solve(sd, pools, f, k, tg + x, Kind, base, far) for x in targets[1:]]
                    yield from [x for x in near if x is not None]
                    return
                break
        else:
            if tg == targets[0] and kind == 'cmp' and not short:
                near = climb(sd, pools, f, {k: e.atomv.get(k) for k in keys}, rng, Kind, base)
                for x in near:
                    yield x
                return


LEAF = {'lt': 'cmp', 'le': 'cmp', 'truth': 'truth', 'callable': 'coin', 'in': 'coin', 'raised': 'coin', 'isinst': 'class', 'isnan': 'isnan'}


def satisfy(sd, pools, u, env, want, rng, Kind, over, depth=0):
    """overrides under which a condition has the wanted value, or None"""
    e = Kind(sd, pools, over)
    if e.truthv(e.ev(u, env)) == want:
        return over
    if depth > 6:
        return None
    if u.op == 'not':
        return satisfy(sd, pools, u.args[0], env, not want, rng, Kind, over, depth + 1)
    if u.op in ('and', 'or'):
        if (u.op == 'and') == want:
            for _ in range(2):
                for a in u.args:
                    over = satisfy(sd, pools, a, env, want, rng, Kind, over, depth + 1)
                    if over is None:
                        return None
                e = Kind(sd, pools, over)
                if e.truthv(e.ev(u, env)) == want:
                    return over
            return None
        for a in rng.sample(list(u.args), len(u.args)):
            r = satisfy(sd, pools, a, env, want, rng, Kind, over, depth + 1)
            if r is not None:
                return r
        return None
    if u.op == 'eq':
        a, b = e.ev(u.args[0], env), e.ev(u.args[1], env)
        kind = 'cmp' if isinstance(a, (int, float)) or isinstance(b, (int, float)) else 'eq'
    else:
        kind = LEAF.get(u.op)
    if kind is None:
        return None
    for o in directed(sd, pools, kind, u, env, rng, False, Kind, over):
        o = {**over, **o}
        e = Kind(sd, pools, o)
        if e.truthv(e.ev(u, env)) == want:
            return o
    return None


def uniq(xs):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def solve(sd, pools, f, key, target, Kind=Ev, base=(), far=False):
    def g(x):
        e = Kind(sd, pools, {**dict(base), key: x})
        try:
            v = f(e)
        except Exception:
            return None
        if v is None or v != v or math.isinf(v):
            return None
        return v - target
    xs = [-40.0, -13.0, -5.0, -2.7, -0.9, 0.35, 1.3, 2.9, 5.0, 13.0, 40.0] if far else [-2.7, -0.9, 0.35, 1.3, 2.9]
    vs = [g(x) for x in xs]
    pts = [(x, v) for x, v in zip(xs, vs) if v is not None]
    if len(pts) < 2:
        return None
    # linear guess
    (x0, v0), (x1, v1) = pts[0], pts[-1]
    if abs(v1 - v0) > 1e-12:
        x = x0 - v0 * (x1 - x0) / (v1 - v0)
        if abs(x) < 50:
            v = g(x)
            if v is not None and abs(v) < 1e-9:
                return {key: intish(x)}
    # bracketing
    for (a, fa), (b, fb) in zip(pts, pts[1:]):
        if fa * fb < 0:
            for _ in range(60):
                m = 0.5 * (a + b)
                fm = g(m)
                if fm is None:
                    break
                if fa * fm <= 0:
                    b, fb = m, fm
                else:
                    a, fa = m, fm
            m = 0.5 * (a + b)
            fm = g(m)
            if fm is not None and abs(fm) < 1e-8:
                return {key: intish(m)}
    return None


def climb(sd, pools, f, at, rng, Kind, base, tries=250):
    """overrides of several inputs on either side of a test that no single input reaches"""
    at = {k: v for k, v in at.items() if isinstance(v, float) and math.isfinite(v)}
    if not 2 <= len(at) <= 16:
        return
    steps = [0]

    def g(x):
        e = Kind(sd, pools, {**dict(base), **x})
        try:
            v = f(e)
        except Exception:
            return None
        steps[0] += e.steps
        return None if v is None or v != v or math.isinf(v) else v
    x, v = dict(at), g(at)
    for n in range(tries):
        if steps[0] > 30000 or t.spent():
            break
        if v is None:
            y = {k: rng.gauss(0, 3) if at[k] <= 0 or rng.random() < 0.7 else at[k] for k in at}
        else:
            y = dict(x)
            fac = rng.choice((0.5, 0.3, 2, 3, 0.9, 1.1, 0.99, 1.01))
            for k in rng.sample(list(at), min(len(at), rng.choice((1, 1, 2, 2, 4)))):
                y[k] *= fac
        w = g(y)
        if w is None:
            continue
        if v is not None and (w > 0) != (v > 0):
            # both sides of the test, close together
            a, b = x, y
            for _ in range(40):
                m = {k: 0.5 * (a[k] + b[k]) for k in a}
                h = g(m)
                if h is None:
                    break
                if (h > 0) == (v > 0):
                    a = m
                else:
                    b = m
            yield b
            yield a
            yield y
            yield {k: 1.5 * y[k] - 0.5 * x[k] for k in x}
            return
        if v is None or abs(w) <= abs(v):
            x, v = y, w


def intish(x):
    r = round(x)
    return int(r) if abs(x - r) < 1e-9 else x
