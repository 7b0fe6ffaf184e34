"""Gated value-graph construction.

Abstractly interprets the syntax tree of a function: every variable, array
element and attribute becomes a term over the function's inputs; control-flow
joins become gates (ite), loops become loop terms (one abstract iteration over
symbolic carried values, never iterated), project functions are inlined.  No
code of the analysed repository is imported or executed, no path is
enumerated, no solver is called.
"""
import ast
import string
from . import terms as t
from .terms import T, mk, num, app, ite, ZERO, ONE, TRUE, FALSE, NONE, pyv, tup
from .project import FuncDef, ClassDef, AnalysisBroken, dotted


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


VEC_FIELDS = {'position', 'velocity', 'target_direction', 'force', 'force_prev',
              'position_ls', 'position_rs', 'p0', 'p1'}
BOOL_FIELDS = {'active', 'target_reached', 'is_leader', 'is_follower'}
INT_FIELDS = {'target', 'index_leader', 'familiar_exit'}


class State:
    __slots__ = ('m', 'tr', 'cnt', 'raised')

    def __init__(self, m=None, tr=(), cnt=None):
        self.m = {} if m is None else m
        self.tr = tr
        self.cnt = {} if cnt is None else cnt
        self.raised = []

    def copy(self):
        return State(dict(self.m), self.tr, dict(self.cnt))

    def become(self, o):
        self.m = dict(o.m)
        self.tr = o.tr
        self.cnt = dict(o.cnt)


class Exit:
    __slots__ = ('kind', 'cond', 'st', 'val')

    def __init__(self, kind, cond, st, val=None):
        self.kind, self.cond, self.st, self.val = kind, cond, st, val


def raising(body):
    """the loop body with the exceptions it raises among its exits"""
    def run(s, x):
        pre, s.raised = s.raised, []
        nr, ex = body(s, x)
        rs, s.raised = s.raised, pre
        if nr is not None and nr is not s:
            rs = rs + nr.raised
            nr.raised = []
        return nr, [Exit('raise', c, s_, v) for c, s_, v in rs] + list(ex)
    return run


class Closure:
    def __init__(self, node, frame, mod, cls=None, name=None, defaults=None):
        self.node = node      # Lambda or FunctionDef
        self.frame = frame
        self.mod = mod
        self.cls = cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.defaults = defaults or {}
        self.decorators = []


class Bound:
    def __init__(self, func, obj, name=None):
        self.func, self.obj, self.name = func, obj, name


class Meth:
    """method of a non-project value"""
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Partial:
    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, args, kw


class GenVal:
    def __init__(self, lst):
        self.lst = lst


class Super:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class Frame:
    __slots__ = ('fid', 'mod', 'parent', 'cls', 'selfobj', 'gen', 'special', 'name', 'globals_')

    def __init__(self, fid, mod, parent=None, cls=None, selfobj=None, gen=None, name=''):
        self.fid, self.mod, self.parent, self.cls = fid, mod, parent, cls
        self.selfobj, self.gen, self.special, self.name = selfobj, gen, None, name
        self.globals_ = set()


def merge(c, a, b):
    """join of two states under gate c"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    m = {}
    for k in a.m.keys() | b.m.keys():
        x, y = a.m.get(k, t.UNDEF), b.m.get(k, t.UNDEF)
        if x is y:
            m[k] = x
        else:
            if k[0] != 'v' and (x is t.UNDEF or y is t.UNDEF) and k[0] in ('col', 'attr', 'item', 'rand'):
                x = init_of(k) if x is t.UNDEF else x
                y = init_of(k) if y is t.UNDEF else y
            m[k] = ite(c, x, y)
    n = 0
    while n < len(a.tr) and n < len(b.tr) and a.tr[n] is b.tr[n]:
        n += 1
    tr = a.tr[:n]
    if n < len(a.tr) or n < len(b.tr):
        tr = tr + (mk('tif', c, mk('trace', *a.tr[n:]), mk('trace', *b.tr[n:])),)
    cnt = {k: max(a.cnt.get(k, 0), b.cnt.get(k, 0)) for k in a.cnt.keys() | b.cnt.keys()}
    return State(m, tr, cnt)


_inits = {}


def init_of(key):
    v = _inits.get(key)
    if v is None:
        if key[0] == 'col':
            base, f = key[1], key[2]
            k = t.fresh_idx()
            n = mk('len0', base)
            v = t.lam(k, n, field_elem(base, f, k))
        elif key[0] == 'attr':
            v = mk('attr', key[1], key[2])
        elif key[0] == 'item':
            v = mk('item', key[1], key[2])
        elif key[0] == 'rand':
            v = ZERO
        else:
            return t.UNDEF
        _inits[key] = v
    return v


def field_elem(base, f, k):
    name = base + '.' + f
    if f in VEC_FIELDS:
        return t.vec(mk('el', 'real', name, k, ZERO), mk('el', 'real', name, k, ONE))
    if f in BOOL_FIELDS:
        return mk('el', 'bool', name, k)
    if f in INT_FIELDS:
        return mk('el', 'int', name, k)
    return mk('el', 'real', name, k)


PURE_METHODS = {
    'copy', 'items', 'keys', 'values', 'format', 'startswith', 'endswith', 'strip', 'lstrip',
    'rstrip', 'split', 'join', 'replace', 'lower', 'upper', 'astype', 'sum', 'min', 'max',
    'mean', 'any', 'all', 'flatten', 'ravel', 'reshape', 'tolist', 'ptp', 'item', 'get',
    'buffer', 'intersection', 'union', 'difference', 'contains', 'contains_points', 'getvalue',
    'is_set', 'total_seconds', 'argsort', 'argmin', 'argmax', 'cumsum', 'dot', 'transpose', 'index',
    'splitext', 'nonzero', 'valid', 'isdigit', 'partition', 'rpartition', 'rsplit', 'std', 'clip', 'round', 'fill_value',
    'match', 'fullmatch', 'group', 'isnumeric', 'isdecimal', 'removeprefix', 'removesuffix', 'count', 'find', 'rfind', 'tobytes', 'filled', 'is_relative_to', 'as_posix', 'glob', 'resolve', 'stem', 'mro', '__class__', 'dtype',
}

IMPURE_EXT = {
    'open', 'print', 'json.dump', 'numpy.save', 'os.makedirs', 'os.mkdir', 'os.chdir', 'os.remove', 'os.rename', 'os.replace',
    'os.unlink', 'numpy.savetxt', 'numpy.savez', 'numpy.savez_compressed',
    'next', 'setattr', 'warnings.warn', 'warnings.warn_explicit', 'click.secho', 'click.echo', 'os.getcwd', 'input', 'exit', 'sys.exit', 'delattr',
    'loggingtools.setup_logging',
}
IGNORED_EVENTS = {'logger', 'logging'}


class Interp:
    def __init__(self, proj, kinds=None, asserts=False, budget=400000, attrkinds=None, opaque=None):
        self.proj = proj
        self.attrkinds = attrkinds or {}
        self.asserts = asserts
        self.nloc = 0
        self.nfid = 0
        self.depth = 0
        self.stack = []
        self.loopidx = []
        self.opaques = []
        self.fresh = False      # objects are new: what no definition knows has not been set
        self.alloc_at = {}      # loc -> depth of the loops it was allocated in
        self.dtypes = {}        # loc -> element type of the array, 'i' or 'b'
        self.gcache = {}
        self.steps = 0
        self.budget = budget
        self.funcs = set()       # functions analysed
        self.calls = 0
        self.loops = 0
        self.opaque = opaque or {}
        self.fnd = 0
        self.notes = []
        self.draws = []
        self.unroll_limit = 12
        from . import lib
        self.lib = lib

    # ---------------------------------------------------------------- memory
    def alloc(self, st, content):
        self.nloc += 1
        key = ('loc', self.nloc)
        self.alloc_at[key] = len(self.loopidx)
        st.m[key] = content
        return mk('ref', key)

    def cast(self, key, x):
        """value as stored in the array at key"""
        dt = self.dtypes.get(key)
        if key[0] == 'col':
            dt = 'b' if key[2] in BOOL_FIELDS else 'i' if key[2] in INT_FIELDS else None
        if dt is None:
            return x
        from .lib import to_int
        f = to_int if dt == 'i' else t.truth
        return self.emap(f, x) if t.rank(x) else f(x)

    def rd(self, st, key):
        v = st.m.get(key)
        if v is None:
            v = init_of(key)
        return v

    def isarr(self, v):
        return v.op in ('vec', 'lam', 'cmp')

    def wrap(self, st, v):
        """array-valued results live in memory (they can be mutated/aliased)"""
        if v.op in ('vec', 'lam', 'cmp', 'list', 'dict', 'mapl', 'lcat', 'cat'):
            return self.alloc(st, v)
        if v.op == 'ite' and (t.rank(v) > 0):
            return self.alloc(st, v)
        return v

    def val(self, st, v):
        """pure content of a value (one level)"""
        if v.op == 'ref':
            return self.read(self.rd(st, v.args[0]), list(v.args[1:]))
        if v.op == 'ite':
            a, b = self.val(st, v.args[1]), self.val(st, v.args[2])
            if a is v.args[1] and b is v.args[2]:
                return v
            return ite(v.args[0], a, b)
        if v.op == 'pyv' and isinstance(v.args[0].obj, GenVal):
            return v.args[0].obj.lst
        return v

    def deep(self, st, v, depth=0):
        """closed pure term for a value: refs dereferenced, functions eta-expanded"""
        if depth > 12:
            return v
        v = self.val(st, v)
        o = v.op
        if o == 'pyv':
            return self.deep_py(st, v.args[0].obj, depth)
        if o in ('vec', 'tup', 'list', 'star'):
            return mk(o, *[self.deep(st, x, depth + 1) for x in v.args])
        if o == 'nt':
            return mk('tup', *[self.deep(st, x, depth + 1) for x in v.args[2:]])
        if o == 'ite':
            return ite(v.args[0], self.deep(st, v.args[1], depth + 1), self.deep(st, v.args[2], depth + 1))
        if o in ('lam',):
            return t.lam(v.args[0], v.args[1], self.deep(st, v.args[2], depth + 1))
        if o == 'mapl':
            return mk('mapl', v.args[0], v.args[1], v.args[2], self.deep(st, v.args[3], depth + 1))
        if o in ('cat', 'lcat'):
            return mk(o, *[self.deep(st, x, depth + 1) for x in v.args])
        if o == 'dict':
            return mk('dict', *[(k, self.deep(st, x, depth + 1)) for k, x in v.args])
        if o == 'recs':
            return mk('recsv', v.args[0], *[tup(t.s(k[2]), val) for k, val in sorted(
                ((k, val) for k, val in st.m.items() if k[0] == 'col' and k[1] == v.args[0]), key=lambda kv: kv[0][2])
                if val is not init_of(k)])
        if o == 'row':
            return mk('rowv', v.args[0], v.args[1])
        if o == 'recsel':
            return mk('recsel', *v.args)
        return v

    def deep_py(self, st, o, depth):
        if isinstance(o, (FuncDef, Closure, Bound, Partial)):
            if isinstance(o, Bound) and not isinstance(o.func, (FuncDef, Closure)):
                return mk('meth', o.obj, o.name or '?')
            try:
                return self.fnterm(st, o, depth)
            except (Unsupported, RecursionError):
                q = getattr(o, 'qual', None) or getattr(getattr(o, 'func', None), 'qual', None) or getattr(o, 'name', '?')
                return mk('fnref', str(q).split('.')[-1])
        if isinstance(o, ClassDef):
            return mk('clsv', o.name)
        if isinstance(o, Meth):
            return mk('meth', self.deep(st, o.obj, depth + 1), o.name)
        if isinstance(o, GenVal):
            return self.deep(st, o.lst, depth + 1)
        if isinstance(o, tuple) and o[0] == 'ext':
            return mk('ext', o[1].split('.')[-1])
        if isinstance(o, tuple):
            return mk('mod', o[1])
        if isinstance(o, Iter):
            # an iterator handed on is as good as the elements it will give
            if o.seen is None:
                if o.kind in ('range', 'count'):
                    o.seen = app(o.kind, *[self.deep(st, a, depth + 1) for a in o.args])
                else:
                    o.seen = self.deep(st, self.listval(st, pyv(o)), depth + 1)
            return o.seen
        self.opaques.append(type(o).__name__)
        return mk('opaquepy', type(o).__name__)

    def fnterm(self, st, o, depth):
        if self.fnd > 2:
            raise Unsupported('deep function value')
        self.fnd += 1
        try:
            return self.fnterm1(st, o, self.fnd - 1)
        finally:
            self.fnd -= 1

    def fnterm1(self, st, o, depth):
        f, skip, pre, kw = o, 0, [], {}
        if isinstance(f, Partial):
            pre, kw, f = f.args, f.kw, f.func
            f = f.args[0].obj if isinstance(f, T) and f.op == 'pyv' else f
        if isinstance(f, Bound):
            pre = [f.obj] + list(pre)
            f = f.func
        if not isinstance(f, (FuncDef, Closure)):
            raise Unsupported('function value')
        names = [a.arg for a in f.node.args.args]
        rest = [n for n in names[len(pre):] if n not in kw]
        nreq = len(f.node.args.args) - len(f.node.args.defaults)
        rest = [n for i, n in enumerate(rest) if True]
        ps = [t.sym('fn%d.%d' % (depth, i)) for i in range(len(rest))]
        s2 = st.copy()
        s2.tr = ()
        r = self.call_func(s2, f, list(pre) + ps, dict(kw))
        r = self.deep(s2, r)
        effs = []
        for k, v in s2.m.items():
            if k[0] in ('attr', 'item', 'col') and st.m.get(k) is not v:
                effs.append(tup(t.s(str(k[2]) if not isinstance(k[2], T) else t.show(k[2])), self.deep(s2, v)))
        effs.sort(key=lambda x: x.args[0].args[0])
        return mk('fnt', num(len(ps)), r, mk('trace', *s2.tr), tup(*effs))

    # --------------------------------------------------------- array access
    def read(self, c, keys):
        if not keys:
            return c
        if c.op == 'ite':
            return ite(c.args[0], self.read(c.args[1], keys), self.read(c.args[2], keys))
        k, rest = keys[0], keys[1:]
        if k.op == 'ellipsis':
            pad = max(t.rank(c) - len(rest), 0)
            return self.read(c, [FULL] * pad + rest)
        if k.op == 'slice':
            if k is FULL:
                if not rest:
                    return c
                return self.axis_map(c, lambda x: self.read(x, rest))
            r = self.slice(c, k)
            if not rest:
                return r
            return self.axis_map(r, lambda x: self.read(x, rest))
        if k.op == 'lam':
            if t.is_boolish(k.args[2]) or (k.args[2].op == 'not'):
                i = k.args[0]
                body = t.item(c, i)
                r = mk('cmp', i, k.args[1], k.args[2], body)
            else:
                i = t.fresh_idx()
                r = t.lam(i, k.args[1], t.item(c, t.item(k, i)))
            if rest:
                return self.axis_map(r, lambda x: self.read(x, rest))
            return r
        if k.op == 'cmp':
            r = mk('cmp', k.args[0], k.args[1], k.args[2], t.item(c, k.args[3]))
            return self.axis_map(r, lambda x: self.read(x, rest)) if rest else r
        if k.op in ('vec', 'list') and k.args and not any(t.is_boolish(x) for x in k.args):
            r = t.vec(*[t.item(c, x) for x in k.args])
            return self.axis_map(r, lambda x: self.read(x, rest)) if rest else r
        if k.op == 'tup':
            return self.read(c, list(k.args) + rest)
        return self.read(t.item(c, k), rest)

    def axis_map(self, c, f):
        if c.op == 'vec':
            return t.vec(*[f(x) for x in c.args])
        if c.op in ('list', 'tup'):
            return mk('vec', *[f(x) for x in c.args])
        if c.op == 'lam':
            return t.lam(c.args[0], c.args[1], f(c.args[2]))
        if c.op == 'cmp':
            return mk('cmp', c.args[0], c.args[1], c.args[2], f(c.args[3]))
        if c.op == 'ite':
            return ite(c.args[0], self.axis_map(c.args[1], f), self.axis_map(c.args[2], f))
        i = t.fresh_idx()
        return t.lam(i, t.length(c), f(t.item(c, i)))

    def slice(self, c, k):
        a, b, stp = k.args
        if c.op in ('vec', 'tup', 'list') and all(x is NONE or x.op == 'num' for x in (a, b, stp)) \
                and not any(x.op == 'star' for x in c.args):
            f = lambda x: None if x is NONE else int(x.args[0])
            return mk(c.op, *c.args[f(a):f(b):f(stp)])
        if c.op == 'lam' and stp is NONE:
            n = c.args[1]
            lo = ZERO if a is NONE else a
            if lo.op == 'num' and lo.args[0] < 0:
                lo = t.add(n, lo)
            hi = n if b is NONE else b
            if hi.op == 'num' and hi.args[0] < 0:
                hi = t.add(n, hi)
            i = t.fresh_idx()
            return t.lam(i, t.sub(hi, lo), t.item(c, t.add(i, lo)))
        if c.op == 'lam' and stp.op == 'num' and stp.args[0] == -1 and a is NONE and b is NONE:
            i = t.fresh_idx()
            return t.lam(i, c.args[1], t.item(c, t.sub(t.sub(c.args[1], ONE), i)))
        if c.op == 'str' and all(x is NONE or x.op == 'num' for x in (a, b, stp)):
            f = lambda x: None if x is NONE else int(x.args[0])
            return t.s(c.args[0][f(a):f(b):f(stp)])
        if c.op == 'mapl' and c.args[2] is TRUE and stp is NONE and all(x is NONE or x.op == 'num' for x in (a, b)):
            n = c.args[1]
            lo = ZERO if a is NONE else a if a.args[0] >= 0 else t.atleast0(t.add(n, a))
            hi = n if b is NONE else ite(t.lt(b, n), b, n) if b.args[0] >= 0 else t.add(n, b)
            i = t.fresh_idx()
            return mk('mapl', i, t.atleast0(t.sub(hi, lo)), TRUE, t.subst(c.args[3], {c.args[0]: t.add(i, lo)}))
        return mk('item', c, k)

    def write(self, c, keys, v):
        if c.op == 'ite' and not keys and t.rank(c) == 0:
            return v
        if c.op == 'ite':
            return ite(c.args[0], self.write(c.args[1], keys, v), self.write(c.args[2], keys, v))
        if not keys:
            return self.broadcast(v, c)
        k, rest = keys[0], keys[1:]
        if k.op == 'tup':
            return self.write(c, list(k.args) + rest, v)
        if k.op == 'ellipsis':
            pad = max(t.rank(c) - len(rest), 0)
            return self.write(c, [FULL] * pad + rest, v)
        if k is FULL:
            tr = sum(1 for x in rest if x.op == 'slice')
            if c.op == 'vec':
                sub = c.args[0] if c.args else ZERO
                full = t.rank(v) > self._restrank(sub, rest)
                return t.vec(*[self.write(x, rest, t.item(v, num(j)) if full else v) for j, x in enumerate(c.args)])
            if c.op == 'lam':
                full = t.rank(v) > self._restrank(c.args[2], rest)
                return t.lam(c.args[0], c.args[1],
                             self.write(c.args[2], rest, t.item(v, c.args[0]) if full else v))
            return mk('store', c, k, v)
        if k.op == 'slice':
            if c.op == 'lam' and k.args[2] is NONE:
                i, n = c.args[0], c.args[1]
                lo = ZERO if k.args[0] is NONE else k.args[0]
                hi = n if k.args[1] is NONE else k.args[1]
                if lo.op == 'num' and lo.args[0] < 0:
                    lo = t.add(n, lo)
                if hi.op == 'num' and hi.args[0] < 0:
                    hi = t.add(n, hi)
                full = t.rank(v) > self._restrank(c.args[2], rest)
                vi = t.item(v, t.sub(i, lo)) if full else v
                return t.lam(i, n, ite(t.and_(t.le(lo, i), t.lt(i, hi)), self.write(c.args[2], rest, vi), c.args[2]))
            return mk('store', c, k, v)
        if k.op == 'lam' and (t.is_boolish(k.args[2])) and c.op == 'lam':
            i = c.args[0]
            m = t.item(k, i)
            vi = v
            if v.op == 'cmp':
                mv = t.subst(v.args[2], {v.args[0]: i})
                if mv is m:
                    vi = t.subst(v.args[3], {v.args[0]: i})
                else:
                    vi = mk('item', v, app('rankof', k, i))
            elif t.rank(v) > self._restrank(c.args[2], rest):
                vi = mk('item', v, app('rankof', k, i))
            return t.lam(i, c.args[1], ite(m, self.write(c.args[2], rest, vi), c.args[2]))
        if k.op in ('lam', 'cmp', 'vec', 'list'):
            return mk('store', c, k, v)
        if c.op in ('vec', 'list', 'tup'):
            if k.op == 'num':
                j = int(k.args[0])
                xs = list(c.args)
                if -len(xs) <= j < len(xs):
                    xs[j] = self.write(xs[j], rest, v)
                    return mk(c.op, *xs)
                return mk('store', c, k, v) if any(x.op == 'star' for x in xs) else app('outside', c, k)
            return mk(c.op, *[ite(t.eq(k, num(j)), self.write(x, rest, v), x) for j, x in enumerate(c.args)])
        if c.op == 'lam':
            i = c.args[0]
            if k.op == 'num' and k.args[0] < 0:
                k = t.add(c.args[1], k)
            return t.lam(i, c.args[1], ite(t.eq(i, k), self.write(c.args[2], rest, v), c.args[2]))
        if c.op == 'dict' and not rest:
            if t.is_const(k):
                out, done = [], False
                for kk, vv in c.args:
                    if kk is k:
                        out.append((kk, v))
                        done = True
                    else:
                        out.append((kk, vv))
                if not done:
                    out.append((k, v))
                return mk('dict', *out)
            return mk('dict', *(c.args + ((k, v),)))
        return mk('store', c, k, self.write(t.item(c, k), rest, v) if rest else v)

    def write_pure(self, c, keys, v):
        """replace the object stored at a path"""
        if not keys:
            return v
        k, rest = keys[0], list(keys[1:])
        if c.op in ('vec', 'list', 'tup') and k.op == 'num':
            xs = list(c.args)
            j = int(k.args[0])
            xs[j] = self.write_pure(xs[j], rest, v)
            return mk(c.op, *xs)
        return self.write(c, [k], self.write_pure(t.item(c, k), rest, v))

    def _restrank(self, sub, rest):
        r = t.rank(sub)
        for x in rest:
            if x.op not in ('slice',):
                r -= 1
        return max(r, 0)

    def broadcast(self, v, c):
        rc, rv = t.rank(c), t.rank(v)
        if rc == 0:
            return v
        if rv < rc:
            return self.axis_map(c, lambda x: self.broadcast(v, x)) if c.op != 'ite' else v
        if c.op == 'vec' and v.op in ('lam', 'vec') and len(c.args) and v.op != 'ite':
            return t.vec(*[self.broadcast(t.item(v, num(j)), x) for j, x in enumerate(c.args)])
        return v

    def emap(self, f, *xs):
        """elementwise application with numpy broadcasting"""
        r = max(t.rank(x) for x in xs)
        if r == 0:
            return f(*xs)
        outer = [x for x in xs if t.rank(x) == r]
        for x in outer:
            if x.op == 'ite':
                return ite(x.args[0], self.emap(f, *[y.args[1] if y is x else y for y in xs]),
                           self.emap(f, *[y.args[2] if y is x else y for y in xs]))
        vs = [x for x in outer if x.op == 'vec']
        if vs:
            n = max(len(x.args) for x in vs)
            return t.vec(*[self.emap(f, *[(x.args[j % len(x.args)] if x.op == 'vec' else t.item(x, num(j)))
                                          if t.rank(x) == r else x for x in xs]) for j in range(n)])
        cs = [x for x in outer if x.op == 'cmp']
        if cs:
            b = cs[0]
            args = []
            for x in xs:
                if t.rank(x) < r:
                    args.append(x)
                elif x.op == 'cmp':
                    if t.subst(x.args[2], {x.args[0]: b.args[0]}) is not b.args[2]:
                        return f(*xs)
                    args.append(t.subst(x.args[3], {x.args[0]: b.args[0]}))
                else:
                    return f(*xs)
            return mk('cmp', b.args[0], b.args[1], b.args[2], self.emap(f, *args))
        b = outer[0]
        i = b.args[0]
        return t.lam(i, b.args[1], self.emap(f, *[(t.subst(x.args[2], {x.args[0]: i}) if x.op == 'lam' else t.item(x, i))
                                                  if t.rank(x) == r else x for x in xs]))

    # --------------------------------------------------------------- values
    def getitem(self, st, v, k):
        if v.op == 'ite':
            return ite(v.args[0], self.getitem(st, v.args[1], k), self.getitem(st, v.args[2], k))
        if v.op == 'pyv':
            o = v.args[0].obj
            if isinstance(o, GenVal):
                return self.getitem(st, o.lst, k)
            m = self.user_method(v, '__getitem__')
            if m:
                return self.call(st, m, [k], {})
            return mk('item', self.deep(st, v), self.deep(st, k))
        if v.op == 'recs':
            if k.op == 'str':
                return mk('ref', ('col', v.args[0], k.args[0]))
            kk = self.val(st, k)
            if kk is FULL or kk.op == 'ellipsis':
                return v
            if kk.op == 'tup':
                kk = kk.args[0]
            if t.rank(kk) > 0:
                return mk('recsel', v.args[0], kk)
            if kk.op == 'slice':
                return mk('item', v, kk)
            return mk('row', v.args[0], kk)
        if v.op == 'row':
            if k.op == 'str':
                key = ('col', v.args[0], k.args[0])
                return self.view(st, mk('ref', key, v.args[1]))
            return mk('item', v, k)
        if v.op == 'recsel':
            if k.op == 'str':
                col = self.rd(st, ('col', v.args[0], k.args[0]))
                return self.alloc(st, self.read(col, [v.args[1]]))
            return mk('item', v, k)
        if v.op == 'ref':
            kk = self.val(st, k)
            c = self.val(st, v)
            if c.op == 'ite' and not self.isarr(c):
                r = t.item(c, self.deep(st, k)) if kk.op != 'slice' else self.read(c, [kk])
                return self.wrap_item(st, r)
            keys = list(kk.args) if kk.op == 'tup' else [kk]
            keys = [self.val(st, x) for x in keys]
            if c.op == 'dict':
                return self.dict_get(st, c, kk)
            if all(x.op not in ('slice', 'ellipsis', 'lam', 'cmp', 'vec', 'list') for x in keys):
                return self.view(st, mk('ref', v.args[0], *(v.args[1:] + tuple(keys))))
            # trailing full slices after plain indices keep a view
            n = len(keys)
            while n and keys[n - 1] is FULL:
                n -= 1
            if all(x.op not in ('slice', 'ellipsis', 'lam', 'cmp', 'vec', 'list') for x in keys[:n]):
                if n == 0:
                    return v
                return self.view(st, mk('ref', v.args[0], *(v.args[1:] + tuple(keys[:n]))))
            return self.wrap_item(st, self.read(c, keys))
        kk = self.val(st, k)
        if v.op == 'nt':
            if kk.op == 'num':
                return v.args[2 + int(kk.args[0])]
        if v.op in ('tup', 'vec', 'list', 'str') or self.isarr(v):
            keys = list(kk.args) if kk.op == 'tup' else [kk]
            return self.wrap_item(st, self.read(v, [self.val(st, x) for x in keys]))
        if v.op in ('dict',):
            return self.dict_get(st, v, kk)
        m = self.user_method(v, '__getitem__')
        if m:
            return self.call(st, m, [k], {})
        if kk.op == 'tup' and kk.args and kk.args[-1] is FULL:
            # trailing full slices select nothing
            ks = list(kk.args)
            while ks and ks[-1] is FULL:
                ks.pop()
            if not ks:
                return v
            k = kk = tup(*ks) if len(ks) > 1 else ks[0]
        if v.op == 'mapl' and v.args[2] is TRUE and kk.op == 'slice' and kk.args[0].op == 'num' and kk.args[0].args[0] >= 0 \
                and kk.args[1] is NONE and kk.args[2] in (NONE, ONE):
            # the rest of a sequence
            i = t.fresh_idx()
            return mk('mapl', i, t.add(v.args[1], num(-kk.args[0].args[0])), TRUE, t.item(v, t.add(i, kk.args[0])))
        kd = self.deep(st, k)
        key = ('item', v, kd)
        if key in st.m:
            return st.m[key]
        return mk('item', v, kd) if kk.op == 'slice' or kk.op == 'tup' else t.item(v, kd)

    def dict_get(self, st, c, k):
        k = self.deep(st, k)
        if t.is_const(k) or all(t.is_const(kk) for kk, _ in c.args):
            r = None
            if t.is_const(k):
                for kk, vv in reversed(c.args):
                    if kk is k:
                        return vv
            if not t.is_const(k) and c.args:
                r = mk('item', mk('dict', *[(kk, self.deep(st, vv)) for kk, vv in c.args]), k)
                for kk, vv in c.args:
                    r = ite(t.eq(k, kk), vv, r)
                return r
        return mk('item', mk('dict', *[(kk, self.deep(st, vv)) for kk, vv in c.args]), k)

    def wrap_item(self, st, r):
        if self.isarr(r):
            return self.alloc(st, r)
        return r

    def view(self, st, ref):
        c = self.val(st, ref)
        if c.op in ('ref', 'pyv', 'row', 'recs', 'nt'):
            return c
        if self.isarr(c) or c.op in ('list', 'dict') or (c.op == 'ite' and t.rank(c) > 0):
            return ref
        return c

    def setitem(self, st, v, k, x, cond=TRUE):
        if v.op == 'ite':
            self.setitem(st, v.args[1], k, x, t.and_(cond, v.args[0]))
            self.setitem(st, v.args[2], k, x, t.and_(cond, t.not_(v.args[0])))
            return
        def put(key, new):
            st.m[key] = ite(cond, new, self.rd(st, key)) if cond is not TRUE else new
        if v.op == 'recs':
            if k.op == 'str':
                key = ('col', v.args[0], k.args[0])
                put(key, self.cast(key, self.broadcast(self.deep(st, x), self.rd(st, key))))
                return
            self.event(st, 'setitem', [v, self.deep(st, k), self.deep(st, x)])
            return
        if v.op == 'row' and k.op == 'str':
            key = ('col', v.args[0], k.args[0])
            put(key, self.write(self.rd(st, key), [v.args[1]], self.cast(key, self.deep(st, x))))
            return
        if v.op == 'ref':
            kk = self.val(st, k)
            keys = [self.val(st, y) for y in (kk.args if kk.op == 'tup' else [kk])]
            key = v.args[0]
            old = self.rd(st, key)
            cur = self.val(st, v)
            xv = self.deep(st, x) if (self.isarr(cur) or cur.op == 'ite') else self.compval(st, x) if self.loopidx else self.keep(st, x)
            if cur.op == 'dict':
                keys = [self.deep(st, k)]
            put(key, self.write(old, list(v.args[1:]) + keys, self.cast(key, xv)))
            return
        m = self.user_method(v, '__setitem__')
        if m:
            self.call(st, m, [k, x], {})
            return
        kd = self.deep(st, k)
        if v.op in ('sym', 'attr', 'item', 'app', 'el', 'cv', 'cel'):
            put(('item', v, kd), self.keep(st, x))
            return
        if v.op == 'num':
            return          # an item of np.zeros(0): only in loops that make no round
        self.event(st, 'setitem', [self.deep(st, v), kd, self.deep(st, x)])

    def keep(self, st, x):
        return x

    def user_class(self, v):
        if v.op == 'sym' and isinstance(v.args[1], str) and v.args[1].startswith('obj:'):
            return self.proj.cls(v.args[1][4:])
        k = self.kind_of(v)
        if k and k.startswith('obj:'):
            return self.proj.cls(k[4:])
        return None

    def kind_of(self, v):
        if v.op == 'attr':
            r = self.attrkinds.get(v.args[1])
            if r:
                return r
            c = self.user_class(v.args[0])
            if c:
                for k in self.proj.mro(c):
                    nm = k.name if isinstance(k, ClassDef) else k
                    r = self.attrkinds.get((nm, v.args[1]))
                    if r:
                        return r
        return None

    def user_method(self, v, name):
        c = self.user_class(v)
        if c:
            f = self.proj.find_method(c, name)
            if f:
                return pyv(Bound(f, v, name))
        return None

    def getattr(self, st, v, name):
        if v.op == 'ite':
            return ite(v.args[0], self.getattr(st, v.args[1], name), self.getattr(st, v.args[2], name))
        if v.op == 'pyv':
            return self.getattr_py(st, v, v.args[0].obj, name)
        if v.op == 'ext':
            return mk('ext', v.args[0] + '.' + name) if False else pyv(('ext', v.args[0] + '.' + name))
        if v.op == 'nt' and name in v.args[1]:
            return v.args[2 + v.args[1].index(name)]
        if v.op == 'recs':
            if name == 'dtype':
                return mk('dtype', v.args[0])
            if name == 'size':
                return mk('len0', v.args[0])
            if name == 'shape':
                return tup(mk('len0', v.args[0]))
            return pyv(Meth(v, name))
        if v.op == 'ref' or self.isarr(v) or v.op in ('tup', 'list', 'str', 'strcat', 'dict', 'num'):
            return self.lib.value_attr(self, st, v, name)
        if name == 'fields' and v.op == 'attr' and v.args[1] == 'dtype':
            name = 'names'      # gone through and counted alike
        key = ('attr', v, name)
        if key in st.m:
            return st.m[key]
        c = self.user_class(v)
        if c is not None:
            kind = self.kind_of(mk('attr', v, name))
            if kind is None:
                f = self.proj.find_method(c, name)
                if f:
                    if f.has_deco('property'):
                        return self.call_func(st, f, [v], {})
                    if f.has_deco('staticmethod'):
                        return pyv(f)
                    if f.has_deco('classmethod'):
                        return pyv(Bound(f, pyv(c), name))
                    return pyv(Bound(f, v, name))
                a = self.proj.find_attr(c, name)
                if a:
                    k, node, inner = a
                    if inner:
                        return pyv(inner)
                    if self.fresh and name not in self.proj.known_names():
                        d = self.fresh_default(k, node)
                        if d is not None:
                            return d
                    kind = self.trait_kind(k, node)
                    if kind is None:
                        r = self.const_expr(k.mod, node)
                        if r is not None:
                            return r
            if st.cnt.get(('uninit', v)):
                # read before the base class took its arguments
                return mk('attr', app('before init', v), name)
            return self.typed(st, mk('attr', v, name), kind)
        if name == 'ndim':
            return t.length(mk('attr', v, 'shape'))
        return self.typed(st, mk('attr', v, name), self.attrkinds.get(name))

    def trait_kind(self, k, node):
        if isinstance(node, ast.Call):
            d = dotted(node.func) or ''
            d = d.split('.')[-1]
            return {'Float': 'real', 'Int': 'int', 'Bool': 'bool', 'Unicode': 'any', 'Instance': 'any',
                    'List': 'any', 'Array': 'any', 'Enum': 'any', 'Union': 'any', 'Type': 'any'}.get(d)
        return None

    def typed(self, st, term, kind):
        """symbolic input of a declared kind"""
        if kind is None or kind == 'any' or (isinstance(kind, str) and kind.startswith('obj:')):
            return term
        if kind == 'real' or kind == 'int' or kind == 'bool':
            return mk('el', kind, term)
        if kind.startswith('recs'):
            return mk('recs', kind.split(':')[1] if ':' in kind else t.show(term))
        if kind == 'vec2':
            return self.alloc_sym(st, ('p', term), t.vec(mk('el', 'real', term, ZERO), mk('el', 'real', term, ONE)))
        if kind.startswith('arr'):
            kind, _, ln = kind.partition('@')
            return self.alloc_sym(st, ('p', term), self.sym_array(term, kind, mk('len0', ln or t.show(term))))
        raise Unsupported('kind ' + kind)

    def alloc_sym(self, st, key, content):
        if key not in st.m:
            st.m[key] = content
            _inits.setdefault(key, content)
        return mk('ref', key)

    def sym_array(self, name, kind, n):
        # arr:real, arr:vec2, arr:int, arr:bool, arr2:real, arr:tri (triangles), arr:seg
        i = t.fresh_idx()
        t.EL_LEN[name] = n
        e = kind.split(':')[1]
        if kind.startswith('arr2'):
            j = t.fresh_idx()
            m = mk('len1', name if isinstance(name, str) else t.show(name))
            return t.lam(i, n, t.lam(j, m, mk('el', e, name, i, j)))
        if e == 'vec2':
            b = t.vec(mk('el', 'real', name, i, ZERO), mk('el', 'real', name, i, ONE))
        elif e == 'ivec2':
            b = t.vec(mk('el', 'int', name, i, ZERO), mk('el', 'int', name, i, ONE))
        elif e == 'tri':
            b = t.vec(*[t.vec(mk('el', 'real', name, i, num(a), ZERO), mk('el', 'real', name, i, num(a), ONE))
                        for a in range(3)])
        else:
            b = mk('el', e, name, i)
        return t.lam(i, n, b)

    def fresh_default(self, k, node):
        """the value a newly declared trait starts with, None when that cannot be told"""
        if isinstance(node, ast.Call):
            nm = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, 'id', '')
            if nm not in ('Any', 'Instance', 'Int', 'Float', 'Bool', 'Unicode'):
                return None
            given = [x.value for x in node.keywords if x.arg == 'default_value'] + (node.args[:1] if nm != 'Instance' else [])
            if given:
                return self.const_expr(k.mod, given[0])
            return {'Int': t.num(0), 'Float': t.num(0), 'Bool': t.FALSE, 'Unicode': t.s('')}.get(nm, t.NONE)
        return self.const_expr(k.mod, node) if node is not None else None

    def setattr(self, st, v, name, x):
        if v.op == 'ite':
            c = v.args[0]
            for br, cc in ((v.args[1], c), (v.args[2], t.not_(c))):
                key = ('attr', br, name)
                st.m[key] = ite(cc, x, self.rd(st, key))
            return
        c = self.user_class(v)
        if c is not None:
            f = None
            for k in self.proj.mro(c):
                if isinstance(k, ClassDef) and (name + '@setter') in k.methods:
                    f = k.methods[name + '@setter']
        if v.op == 'nt':
            raise Unsupported('setattr on namedtuple')
        st.m[('attr', self.deep_obj(st, v), name)] = x

    def deep_obj(self, st, v):
        if v.op in ('ref',):
            return v
        return v

    def getattr_py(self, st, v, o, name):
        if isinstance(o, tuple) and o[0] == 'ext':
            return self.ext_value(o[1] + '.' + name)
        if isinstance(o, tuple) and o[0] == 'mod':
            return self.module_attr(o[1], name)
        if isinstance(o, ClassDef):
            f = self.proj.find_method(o, name)
            if f:
                if f.has_deco('classmethod'):
                    return pyv(Bound(f, v, name))
                return pyv(f)
            a = self.proj.find_attr(o, name)
            if a:
                k, node, inner = a
                if inner:
                    return pyv(inner)
                r = self.const_expr(k.mod, node)
                if r is not None:
                    return r
            if name == '__name__':
                return t.s(o.name)
            return mk('attr', mk('clsv', o.name), name)
        if isinstance(o, Super):
            mro = self.proj.mro(o.cls_of)
            try:
                i = mro.index(o.cls)
            except ValueError:
                i = 0
            for k in mro[i + 1:]:
                if isinstance(k, ClassDef) and name in k.methods:
                    f = k.methods[name]
                    if f.has_deco('property'):
                        return self.call_func(st, f, [o.obj], {})
                    return pyv(Bound(f, o.obj, name))
            return pyv(Meth(mk('super', o.obj), name))
        if isinstance(o, (FuncDef, Closure)):
            if name in ('__name__', '__doc__', '__code__', 'func_code'):
                return mk('attr', mk('fnname', o.node.name if hasattr(o.node, 'name') else 'lambda'), name)
            return pyv(Meth(v, name))
        if isinstance(o, GenVal):
            return self.getattr(st, o.lst, name)
        return pyv(Meth(v, name))

    # -------------------------------------------------------------- globals
    EXTCONST = {'numpy.pi': t.PI, 'math.pi': t.PI, 'numpy.nan': t.NAN, 'numpy.NaN': t.NAN, 'numpy.NAN': t.NAN,
                'numpy.inf': t.INF, 'numpy.Inf': t.INF, 'math.inf': t.INF, 'math.nan': t.NAN, 'math.tau': t.mul(num(2), t.PI),
                'numpy.newaxis': NONE}

    def ext_value(self, path):
        path = canon_ext(path)
        if path in self.EXTCONST:
            return self.EXTCONST[path]
        return pyv_ext(path)

    def module_attr(self, mod, name):
        r = self.proj.lookup(mod, name)
        if r is None:
            return mk('ext', mod + '.' + name)
        return self.resolved(r)

    def resolved(self, r):
        kind, p = r
        if kind == 'func':
            return pyv(p)
        if kind == 'class':
            return pyv(p)
        if kind == 'mod':
            return pyv_mod(p)
        if kind == 'ext':
            return self.ext_value(p)
        if kind == 'const':
            m, name, node = p
            key = (m.name, name)
            if key not in self.gcache:
                self.gcache[key] = mk('gconst', m.name + '.' + name)
                v = self.const_expr(m, node)
                if v is not None:
                    self.gcache[key] = v
                    if v.op == 'ext' or v.op == 'app':
                        self.gcache[key] = mk('gconst', m.name.replace('specs.', '') + '.' + name) if v.op == 'app' else v
            return self.gcache[key]
        raise Unsupported(kind)

    def const_expr(self, mod, node):
        """value of a module/class level expression when statically evident"""
        if isinstance(node, ast.Call):
            d = dotted(node.func) or ''
            last = d.split('.')[-1]
            if last in ('namedtuple', 'NamedTuple'):
                return pyv(NamedT(node, mod, self))
            if last not in ('int', 'float', 'join', 'dirname', 'array', 'max', 'min', 'sqrt', 'frozenset', 'set', 'tuple', 'list', 'dict', 'radians', 'partial'):
                return None
        try:
            fr = Frame(self.newfid(), mod)
            st = State()
            v = self.ev(node, st, fr)
            return self.deepconst(st, v)
        except Unsupported:
            return None

    def deepconst(self, st, v):
        v = self.val(st, v)
        if v.op in ('vec', 'tup', 'list'):
            return mk(v.op, *[self.deepconst(st, x) for x in v.args])
        if v.op == 'dict':
            return mk('dict', *[(k, self.deepconst(st, x)) for k, x in v.args])
        return v

    def newfid(self):
        self.nfid += 1
        return self.nfid

    # ---------------------------------------------------------------- events
    def event(self, st, name, args):
        if name == 'm.truncate' and len(args) == 1 and st.tr:
            j = len(st.tr) - 1
            while j and st.tr[j].op == 'ev' and st.tr[j].args[0] == 'exit':
                j -= 1
            e = st.tr[j]
            if e.op == 'ev' and e.args[:3] == ('m.seek', args[0], ZERO) and len(e.args) == 4:
                # seek(0); truncate()  is  truncate(0); seek(0)
                st.tr = st.tr[:j] + st.tr[j + 1:]
                k = ('m.seek', args[0], ZERO)
                st.cnt[k] = st.cnt.get(k, 1) - 1
                r = self.event(st, name, [args[0], ZERO])
                self.event(st, 'm.seek', [args[0], ZERO])
                return r
        # calls with the same arguments are told apart by their order
        key = (name,) + tuple(args)
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        heap = []
        if name == 'call' or (name.startswith('m.') and name[2:] not in BLIND):
            # what the callee can see of the writes made so far
            for k, v in st.m.items():
                if k[0] in ('p', 'col', 'attr', 'item') and len(k) > 1:
                    if k[0] == 'attr' and isinstance(k[2], str) and k[2] not in self.proj.known_names():
                        continue    # no callee knows that name
                    v0 = _inits.get(k)
                    if v0 is None:
                        v0 = init_of(k)
                    if v0 is not v:
                        heap.append(mk('hset', *([t.s(str(x)) if not isinstance(x, T) else x for x in k] + [self.deep(st, v)])))
        r = app('res', t.s(name), num(n), *(tuple(self.loopidx) + tuple(args)))
        at = len(st.tr)
        if name in ('m.truncate', 'm.seek', 'm.write') and args[0].op == 'app' and args[0].args[0] == 'io.StringIO':
            # leaving another object's context does not touch a text in memory
            while at and st.tr[at - 1].op == 'ev' and st.tr[at - 1].args[0] == 'exit' and st.tr[at - 1].args[1] is not args[0]:
                at -= 1
        st.tr = st.tr[:at] + (mk('ev', name, *(list(args) + ([mk('heap', *heap)] if heap else []) + [mk('tag', r)])),) + st.tr[at:]
        return r

    def rand(self, st, name, args, kind='real'):
        key = ('rand', name) + (('~',) if any(isinstance(a, T) and t.free(a) for a in args) else tuple(args))
        # the n-th draw of a distribution, counted over the whole run
        n = st.m.get(key, ZERO)
        st.m[key] = t.add(n, ONE)
        self.draws.append((name, len(args)))
        return mk('el', kind, app('rand', t.s(name), n, *args))

    # ----------------------------------------------------------- expressions
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('analysis budget exceeded')

    def ev(self, node, st, fr):
        self.tick()
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            raise Unsupported('expression %s at line %s' % (type(node).__name__, getattr(node, 'lineno', '?')))
        return m(node, st, fr)

    def ev_Constant(self, n, st, fr):
        v = n.value
        if v is None:
            return NONE
        if v is Ellipsis:
            return mk('ellipsis')
        if isinstance(v, bool):
            return t.boolean(v)
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return t.s(v)
        if isinstance(v, bytes):
            return mk('bytes', v)
        return mk('const', repr(v))

    def ev_Name(self, n, st, fr):
        return self.name(n.id, st, fr)

    def name(self, id, st, fr):
        f = fr
        while f is not None:
            v = st.m.get(('v', f.fid, id))
            if v is not None and v is not t.UNDEF:
                return v
            f = f.parent
        if fr.special and id in fr.special:
            return fr.special[id]
        r = self.proj.lookup(fr.mod.name, id)
        if r is not None:
            return self.resolved(r)
        if id in BUILTINS:
            return pyv_ext(id)
        f, known = fr, id.startswith('__') or id in fr.mod.allnames
        while f is not None and not known:
            known = ('v', f.fid, id) in st.m
            f = f.parent
        if not known:
            # no scope defines the name
            st.raised.append((TRUE, st.copy(), app('exc', t.s('NameError'))))
        return mk('ext', id)

    def ev_Attribute(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        return self.getattr(st, v, n.attr)

    def ev_Subscript(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        k = self.ev_index(n.slice, st, fr)
        return self.getitem(st, v, k)

    def ev_index(self, n, st, fr):
        if isinstance(n, ast.Slice):
            f = lambda x: NONE if x is None else self.ev(x, st, fr)
            return mk('slice', f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple):
            return tup(*[self.ev_index(x, st, fr) for x in n.elts])
        return self.ev(n, st, fr)

    def ev_Slice(self, n, st, fr):
        return self.ev_index(n, st, fr)

    def ev_Tuple(self, n, st, fr):
        return self.seq('tup', n.elts, st, fr)

    def ev_List(self, n, st, fr):
        return self.alloc(st, self.seq('list', n.elts, st, fr))

    def ev_Set(self, n, st, fr):
        return mk('app', 'set', self.seq('tup', n.elts, st, fr))

    def seq(self, op, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.val(st, self.ev(e.value, st, fr))
                items = self.concrete_items(st, v)
                if items is None:
                    out.append(mk('star', v))
                else:
                    out.extend(items)
            else:
                out.append(self.ev(e, st, fr))
        return mk(op, *out)

    def ev_Dict(self, n, st, fr):
        items = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.val(st, self.ev(v, st, fr))
                if d.op == 'dict':
                    items.extend(d.args)
                else:
                    items.append((mk('starstar'), d))
            else:
                kk = self.deep(st, self.ev(k, st, fr))
                items = [x for x in items if x[0] is not kk]
                items.append((kk, self.ev(v, st, fr)))
        return self.alloc(st, mk('dict', *items))

    def ev_JoinedStr(self, n, st, fr):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(t.s(v.value))
            else:
                parts.append(self.tostr(st, self.ev(v.value, st, fr), self.fmtspec(v, st, fr)))
        return strcat(*parts)

    def fmtspec(self, v, st, fr):
        if v.format_spec is None:
            return ''
        sp = self.ev(v.format_spec, st, fr)
        return sp.args[0] if sp.op == 'str' else t.show(sp)

    def tostr(self, st, v, spec=''):
        v = self.deep(st, v)
        if spec:
            return app('fmt', v, t.s(spec))
        if v.op == 'str' or v.op == 'strcat':
            return v
        if v.op == 'num' and v.args[0].denominator == 1:
            return t.s(str(int(v.args[0])))
        if v.op == 'app' and v.args[0] == 'str':
            return v
        return app('str', v)

    def ev_FormattedValue(self, n, st, fr):
        return self.tostr(st, self.ev(n.value, st, fr))

    def ev_Lambda(self, n, st, fr):
        return pyv(Closure(n, fr, fr.mod, fr.cls, defaults=self.eval_defaults(n.args, st, fr)))

    def eval_defaults(self, a, st, fr):
        out = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        for nm, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            out[nm] = self.ev(d, st, fr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[x.arg] = self.ev(d, st, fr)
        return out

    def ev_IfExp(self, n, st, fr):
        c = self.test(n.test, st, fr)
        return self.cond(c, n.body, n.orelse, st, fr)

    def cond(self, c, a, b, st, fr):
        if c is TRUE:
            return self.ev(a, st, fr)
        if c is FALSE:
            return self.ev(b, st, fr)
        s1, s2 = st.copy(), st.copy()
        x = self.ev(a, s1, fr) if not isinstance(a, T) else a
        y = self.ev(b, s2, fr) if not isinstance(b, T) else b
        st.raised += [(t.and_(c, e[0]),) + e[1:] for e in s1.raised]
        st.raised += [(t.and_(t.not_(c), e[0]),) + e[1:] for e in s2.raised]
        st.become(merge(c, s1, s2))
        if x.op == 'ref' and y.op == 'ref' or (x.op in STRUCTREF or y.op in STRUCTREF):
            return ite(c, x, y)
        return ite(c, x, y)

    def ev_BoolOp(self, n, st, fr):
        v = self.ev(n.values[0], st, fr)
        for nxt in n.values[1:]:
            c = self.truth(st, v)
            if isinstance(n.op, ast.And):
                if c is FALSE:
                    return v
                w = self.guarded(c, nxt, st, fr)
                if t.is_boolish(self.val(st, v)) and t.is_boolish(self.val(st, w)):
                    v = t.and_(c, w)
                else:
                    v = ite(c, w, v)
            else:
                if c is TRUE:
                    return v
                w = self.guarded(t.not_(c), nxt, st, fr)
                if t.is_boolish(self.val(st, v)) and t.is_boolish(self.val(st, w)):
                    v = t.or_(c, w)
                else:
                    v = ite(c, v, w)
        return v

    def guarded(self, c, node, st, fr):
        s1 = st.copy()
        w = self.ev(node, s1, fr)
        st.raised += [(t.and_(c, e[0]),) + e[1:] for e in s1.raised]
        if s1.tr is not st.tr or s1.m != st.m:
            st.become(merge(c, s1, st))
        return w

    def truth(self, st, v):
        v = self.val(st, v)
        if v.op == 'pyv':
            return TRUE
        if v.op in ('mapl', 'lcat', 'cat'):
            return t.lt(ZERO, self.lib.length(self, st, v))
        if v.op == 'recs':
            return t.lt(ZERO, mk('len0', v.args[0]))
        if v.op == 'nt':
            return TRUE
        return t.truth(v)

    def test(self, node, st, fr):
        return self.truth(st, self.ev(node, st, fr))

    def ev_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return t.not_(self.truth(st, v))
        v = self.val(st, v)
        if isinstance(n.op, ast.USub):
            return self.wrap(st, self.emap(t.neg, v))
        if isinstance(n.op, ast.UAdd):
            return v
        return self.wrap(st, self.emap(lambda x: t.not_(x) if t.is_boolish(x) else app('invert', x), v))

    def ev_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.wrap(st, self.binop(type(n.op).__name__, a, b, st))

    def binop(self, op, a, b, st):
        for x, y, sl in ((a, b, False), (b, a, True)):
            m = self.user_method(x, {'LShift': '__lshift__', 'BitOr': '__or__', 'Add': '__add__'}.get(op, '__none__'))
            if m and not sl:
                return self.call(st, m, [y], {})
        a, b = self.val(st, a), self.val(st, b)
        if op == 'Add':
            if a.op in ('list', 'mapl', 'lcat', 'tup') or b.op in ('list', 'mapl', 'lcat', 'tup'):
                return listcat(a, b)
            if is_str(a) or is_str(b):
                return strcat(a, b)
            return self.emap(t.add, a, b)
        if op == 'Sub':
            return self.emap(t.sub, a, b)
        if op == 'Mult':
            if a.op in ('list', 'tup') and b.op == 'num' and not t.rank(a):
                return mk(a.op, *(a.args * int(b.args[0])))
            if a.op in ('list', 'tup', 'str') or b.op in ('list', 'tup', 'str'):
                if a.op == 'str' and b.op == 'num':
                    return t.s(a.args[0] * int(b.args[0]))
                if b.op == 'str' and a.op == 'num':
                    return t.s(b.args[0] * int(a.args[0]))
                return app('repeat', a, b)
            return self.emap(t.mul, a, b)
        if op == 'Div':
            if a.op in ('sym', 'attr', 'app') and b.op in ('str', 'strcat'):
                return app('path/', a, b)
            return self.emap(t.div, a, b)
        if op == 'FloorDiv':
            return self.emap(t.floordiv, a, b)
        if op == 'Mod':
            if is_str(a):
                return self.pctfmt(st, a, b)
            return self.emap(t.mod, a, b)
        if op == 'Pow':
            return self.emap(t.power, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            def f(x, y):
                if t.is_boolish(x) and t.is_boolish(y):
                    if op == 'BitAnd':
                        return t.and_(x, y)
                    if op == 'BitOr':
                        return t.or_(x, y)
                    return ite(x, t.not_(y), y)
                return app(op, x, y)
            return self.emap(f, a, b)
        if op == 'MatMult':
            return self.lib.dot(self, a, b)
        return app(op, self.deep(st, a), self.deep(st, b))

    def pctfmt(self, st, a, b):
        if a.op != 'str':
            return app('pct', a, self.deep(st, b))
        vals = list(b.args) if b.op == 'tup' else [b]
        parts = []
        rest = a.args[0]
        i = 0
        import re
        pos = 0
        for mt in re.finditer(r'%[sd]', rest):
            if i >= len(vals):
                return app('pct', a, self.deep(st, b))
            parts.append(t.s(rest[pos:mt.start()]))
            parts.append(self.tostr(st, vals[i]))
            i += 1
            pos = mt.end()
        parts.append(t.s(rest[pos:]))
        return strcat(*parts)

    def ev_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        res = TRUE
        for op, rn in zip(n.ops, n.comparators):
            right = self.ev(rn, st, fr)
            r = self.compare(type(op).__name__, left, right, st)
            if res is TRUE:
                res = r
            elif t.rank(self.val(st, r)) == 0 and t.rank(self.val(st, res)) == 0:
                res = t.and_(self.truth(st, res), self.truth(st, r))
            else:
                raise Unsupported('chained array comparison')
            left = right
        return res

    def compare(self, op, a, b, st):
        if op in ('Is', 'IsNot'):
            x, y = self.idval(st, a), self.idval(st, b)
            r = t.eq(x, y)
            if (x.op == 'fnt' or y.op == 'fnt') and x is not y:
                r = FALSE
            return r if op == 'Is' else t.not_(r)
        if op in ('In', 'NotIn'):
            x, c = self.deep(st, a), self.val(st, b)
            if c.op == 'ite':
                return ite(c.args[0], self.compare(op, a, c.args[1], st), self.compare(op, a, c.args[2], st))
            items = self.concrete_items(st, c)
            if items is not None:
                r = t.or_(*[t.eq(x, self.deep(st, y)) for y in items])
            elif c.op == 'dict':
                r = t.or_(*[t.eq(x, k) for k, _ in c.args])
            else:
                r = mk('in', x, self.deep(st, c))
            return r if op == 'In' else t.not_(r)
        a, b = self.val(st, a), self.val(st, b)
        if a.op in ('pyv', 'recs', 'row', 'nt') or b.op in ('pyv', 'recs', 'row', 'nt'):
            a, b = self.deep(st, a), self.deep(st, b)
        if op in ('Eq', 'NotEq'):
            if a.op in ('list', 'tup', 'dict') or b.op in ('list', 'tup', 'dict'):
                r = t.eq(self.deep(st, a), self.deep(st, b))
            else:
                r = self.emap(t.eq, a, b)
            r = r if op == 'Eq' else self.emap(t.not_, r)
        elif op == 'Lt':
            r = self.emap(t.lt, a, b)
        elif op == 'Gt':
            r = self.emap(lambda x, y: t.lt(y, x), a, b)
        elif op == 'LtE':
            r = self.emap(t.le, a, b)
        elif op == 'GtE':
            r = self.emap(lambda x, y: t.le(y, x), a, b)
        else:
            raise Unsupported(op)
        return self.wrap(st, r)

    def idval(self, st, v):
        if v.op == 'ref':
            return v
        if v.op == 'pyv':
            o = v.args[0].obj
            if isinstance(o, ClassDef):
                return mk('clsv', o.name)
            if isinstance(o, tuple) and o[0] == 'ext':
                return mk('ext', o[1].split('.')[-1])
            return v
        return v

    def ev_Starred(self, n, st, fr):
        return mk('star', self.val(st, self.ev(n.value, st, fr)))

    def ev_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def ev_Await(self, n, st, fr):
        raise Unsupported('await')

    def ev_Yield(self, n, st, fr):
        v = NONE if n.value is None else self.ev(n.value, st, fr)
        return self.do_yield(v, st, fr)

    def do_yield(self, v, st, fr):
        f = fr
        while f.gen is None and f.parent is not None:
            f = f.parent
        if f.gen == 'list':
            key = ('v', f.fid, '__yields__')
            st.m[key] = listapp(st.m.get(key, t.lst()), self.deep(st, v))
            return NONE
        return self.event(st, 'yield', [self.deep(st, v)])

    def ev_YieldFrom(self, n, st, fr):
        f = fr
        while f.gen is None and f.parent is not None:
            f = f.parent
        if f.gen == 'list':
            it = self.ev(n.value, st, fr)
            key = ('v', f.fid, '__yields__')
            st.m[key] = listcat(st.m.get(key, t.lst()), self.listval(st, it))
            return NONE

        def body(s2, elem):
            self.do_yield(elem, s2, fr)
            return s2, []
        nrm, exits = self.over(n.value, body, st, fr)
        if nrm is not None:
            st.become(nrm)
        return NONE

    # comprehension: a loop that appends to a hidden list
    def comp(self, n, st, fr, elt):
        key = ('v', self.newfid(), '__comp')
        f2 = Frame(self.newfid(), fr.mod, fr, fr.cls, fr.selfobj, None, fr.name)
        f2.special = fr.special
        st.m[key] = t.lst()

        def gen(i, s):
            if i == len(n.generators):
                x = elt(s, f2)
                s.m[key] = listapp(s.m[key], x)
                return s, []
            g = n.generators[i]

            def body(s2, elem):
                self.assign(g.target, elem, s2, f2)
                c = TRUE
                for cn in g.ifs:
                    c = t.and_(c, self.test(cn, s2, f2))
                if c is FALSE:
                    return s2, []
                s3 = s2.copy()
                nr, ex = raising(lambda s4, _: gen(i + 1, s4))(s3, None)
                for e in ex:
                    e.cond = t.and_(c, e.cond)
                if nr is None:
                    return s2, ex
                return merge(c, nr, s2), ex
            it = self.ev(g.iter, s, fr if i == 0 else f2)
            return self.loop_over(it, body, s, f2)
        s1 = st.copy()
        nr, ex = raising(lambda s4, _: gen(0, s4))(s1, None)
        if nr is None:
            raise Unsupported('comprehension without normal exit')
        r = nr.m.pop(key)
        st.become(nr)
        for e in ex:
            if e.kind == 'raise':
                st.raised.append((e.cond, e.st, e.val))
        st.m.pop(key, None)
        return r

    def ev_ListComp(self, n, st, fr):
        return self.alloc(st, self.comp(n, st, fr, lambda s, f: self.compval(s, self.ev(n.elt, s, f))))

    def compval(self, s, v):
        d = self.val(s, v)
        if d.op in ('pyv', 'row', 'recs'):
            return d
        return self.deep(s, v)

    def ev_GeneratorExp(self, n, st, fr):
        return pyv(GenVal(self.comp(n, st, fr, lambda s, f: self.compval(s, self.ev(n.elt, s, f)))))

    def ev_SetComp(self, n, st, fr):
        return app('set', self.comp(n, st, fr, lambda s, f: self.compval(s, self.ev(n.elt, s, f))))

    def ev_DictComp(self, n, st, fr):
        l = self.comp(n, st, fr, lambda s, f: tup(self.deep(s, self.ev(n.key, s, f)), self.compval(s, self.ev(n.value, s, f))))
        from .loops import mkdict
        return self.alloc(st, mkdict(l))

    # ----------------------------------------------------------------- calls
    def ev_Call(self, n, st, fr):
        self.calls += 1
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and len(n.args) in (0, 2):
            f = fr
            while f.selfobj is None and f.parent is not None:
                f = f.parent
            obj, cls = f.selfobj, f.cls
            if obj is None:
                # a definition written outside its class
                obj = st.m.get(('v', fr.fid, 'self'))
                if obj is None:
                    raise Unsupported('super outside a method')
                cls = self.user_class(obj)
            sp = Super(obj, cls)
            sp.cls_of = self.user_class(obj) or cls
            return pyv(sp)
        fn = self.ev(n.func, st, fr)
        if fn.op == 'pyv' and fn.args[0].obj == ('ext', 'next') and n.args and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            return self.first_of(n, st, fr)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.val(st, self.ev(a.value, st, fr))
                items = self.concrete_items(st, v)
                if items is None:
                    args.append(mk('star', self.deep(st, v)))
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a, st, fr))
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                d = self.val(st, v)
                if d.op == 'dict' and all(kk.op == 'str' for kk, _ in d.args):
                    for kk, vv in d.args:
                        kw[kk.args[0]] = vv
                else:
                    kw['**'] = d
            else:
                kw[k.arg] = v
        self.cur = (fr, n)
        return self.call(st, fn, args, kw, fr)

    def first_of(self, n, st, fr):
        """next(... for ...): the first element, else the default or StopIteration"""
        node = n.first = getattr(n, 'first', None) or first_def(n)
        args = [self.ev(n.args[1], st, fr)] if len(n.args) == 2 else []
        return self.call_func(st, Closure(node, fr, fr.mod, fr.cls), args, {})

    def call(self, st, fn, args, kw, fr=None):
        if fn.op == 'ite':
            c = fn.args[0]
            s1, s2 = st.copy(), st.copy()
            x = self.call(s1, fn.args[1], args, kw, fr)
            y = self.call(s2, fn.args[2], args, kw, fr)
            st.raised += [(t.and_(c, e[0]),) + e[1:] for e in s1.raised] + \
                         [(t.and_(t.not_(c), e[0]),) + e[1:] for e in s2.raised]
            st.become(merge(c, s1, s2))
            return ite(c, x, y)
        if fn.op == 'pyv':
            o = fn.args[0].obj
            if isinstance(o, tuple) and o[0] == 'ext':
                return self.lib.ext_call(self, st, o[1], args, kw, fr)
            if isinstance(o, (FuncDef, Closure)):
                return self.call_func(st, o, args, kw)
            if isinstance(o, Bound):
                return self.call(st, pyv(o.func), [o.obj] + args, kw, fr)
            if isinstance(o, Partial):
                k2 = dict(o.kw)
                k2.update(kw)
                return self.call(st, o.func, list(o.args) + args, k2, fr)
            if isinstance(o, Meth):
                return self.lib.method_call(self, st, o.obj, o.name, args, kw, fr)
            if isinstance(o, NamedT):
                return o.make(args, kw)
            if isinstance(o, ClassDef):
                return self.instantiate(st, o, args, kw)
        if fn.op == 'attr':
            return self.lib.method_call(self, st, fn.args[0], fn.args[1], args, kw, fr)
        if fn.op == 'app' and fn.args[0].startswith('scipy.') and not kw:
            # interpolators and the like are functions
            return app('apply', fn, *[self.deep(st, a) for a in args])
        return self.event(st, 'call', [self.deep(st, fn)] + [self.deep(st, a) for a in args] +
                          [tup(t.s(k), self.deep(st, v)) for k, v in sorted(kw.items())])

    def instantiate(self, st, cls, args, kw):
        if any((isinstance(b, str) and b.split('.')[-1] in ('NamedTuple',)) for b in self.proj.mro(cls)):
            return pyv(NamedT(None, cls.mod, self, cls)) and NamedT(None, cls.mod, self, cls).make(args, kw)
        init = self.proj.find_method(cls, '__init__')
        dargs = [self.deep(st, a) for a in args]
        dkw = [tup(t.s(k), self.deep(st, v)) for k, v in sorted(kw.items())]
        if self.is_exception(cls):
            return app('exc', t.s(cls.name))
        if init is not None and init.cls is not None and not kw.get('**'):
            # bind keywords to positions so that f(a=1) and f(1) agree
            names = [a.arg for a in init.node.args.args][1:]
            d = dict(zip(names, dargs))
            if len(dargs) <= len(names) and not init.node.args.vararg:
                for k, v in kw.items():
                    d[k] = self.deep(st, v)
                dargs = []
                dkw = [tup(t.s(k), v) for k, v in sorted(d.items())]
        n = st.cnt.get('new', 0)
        st.cnt['new'] = n + 1
        obj = app('new', t.s(cls.name), num(n), *(tuple(self.loopidx) + tuple(dargs) + tuple(dkw)))
        return obj

    def is_exception(self, cls):
        return any(isinstance(b, str) and b.split('.')[-1] in ('Exception', 'TypeError', 'ValueError', 'KeyError', 'BaseException', 'TraitError', 'RuntimeError')
                   for b in self.proj.mro(cls))

    def bind_args(self, st, f, args, kw, fid):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        bound = {}
        kw = dict(kw)
        if any(x.op == 'star' for x in args):
            # *opaque: spread positionally as items
            out = []
            for x in args:
                if x.op == 'star':
                    need = max(len(names) - len(args) + 1, 0)
                    for j in range(need):
                        out.append(mk('item', x.args[0], num(j)))
                    if a.vararg and len(out) >= len(names):
                        out.append(mk('star', mk('item', x.args[0], mk('slice', num(need), NONE, NONE)) if need else x.args[0]))
                else:
                    out.append(x)
            args = out
        for nm, v in zip(names, args):
            bound[nm] = v
        extra = args[len(names):]
        for k in list(kw):
            if k in names or k in kwonly:
                bound[k] = kw.pop(k)
        if a.vararg:
            if any(x.op == 'star' for x in extra):
                l = t.lst()
                for x in extra:
                    l = listcat(l, self.listval(st, x.args[0]) if x.op == 'star' else t.lst(self.compval(st, x)))
                bound[a.vararg.arg] = l
            else:
                bound[a.vararg.arg] = tup(*extra)
        elif extra:
            raise Unsupported('too many arguments for %s' % f.node.name if hasattr(f.node, 'name') else 'lambda')
        if a.kwarg:
            if set(kw) == {'**'}:
                bound[a.kwarg.arg] = kw['**']
            else:
                bound[a.kwarg.arg] = self.alloc(st, mk('dict', *[(t.s(k), v) for k, v in sorted(kw.items()) if k != '**']))
        elif kw:
            if '**' in kw:
                d = kw.pop('**')
                for nm in names + kwonly:
                    if nm not in bound:
                        bound[nm] = t.item(d, t.s(nm))
        mod = f.mod
        if isinstance(f, Closure):
            defaults = f.defaults
        else:
            defaults = {}
            dn = names[len(names) - len(a.defaults):]
            fr = Frame(self.newfid(), mod)
            for nm, d in zip(dn, a.defaults):
                if nm not in bound:
                    defaults[nm] = self.ev(d, st, fr)
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None and x.arg not in bound:
                    defaults[x.arg] = self.ev(d, st, fr)
        for nm in names + kwonly:
            if nm not in bound:
                if nm in defaults:
                    bound[nm] = defaults[nm]
                else:
                    bound[nm] = mk('missing', nm)
        for nm, v in bound.items():
            st.m[('v', fid, nm)] = v
        return bound

    def base_inited(self, st, obj):
        """the base class has taken its arguments: what was assigned before may have been replaced"""
        if st.cnt.pop(('uninit', obj), 0):
            for k, v in list(st.m.items()):
                if k[0] == 'attr' and k[1] is obj and v.op != 'ref':
                    st.m[k] = app('replaced by init', v)

    def call_func(self, st, f, args, kw, mode=None):
        node = f.node
        if isinstance(f, FuncDef):
            key = f.qual
            self.funcs.add((f.mod.path, f.qual, node.lineno))
            if key in self.opaque:
                return self.opaque[key](self, st, f, args, kw)
            if f.has_deco('vectorize') and args and mode is None:
                v0 = self.val(st, args[0])
                if t.rank(v0) > 0:
                    return self.alloc(st, self.emap(lambda *xs: self.call_func(st, f, list(xs), kw, 'elem'),
                                                    *[self.val(st, a) for a in args]))
            if f.has_deco('generated_jit') and mode is None:
                return self.call_generated(st, f, args, kw)
        else:
            key = id(node)
        if self.stack.count(key) >= 1 and isinstance(f, FuncDef) or len(self.stack) > 30:
            dn = [self.deep(st, a) for a in args]
            name = 'self' if self.stack[0] == key else getattr(node, 'name', 'lambda')
            if not isinstance(node, ast.Lambda) and is_generator(node):
                return app('rec:' + name, *dn)
            return self.event(st, 'rec:' + name, dn)
        self.stack.append(key)
        try:
            fid = self.newfid()
            parent = f.frame if isinstance(f, Closure) else None
            fr = Frame(fid, f.mod, parent, f.cls if isinstance(f, FuncDef) else f.cls, None, None, getattr(node, 'name', '<lambda>'))
            if isinstance(f, FuncDef) and f.cls is not None and args and not f.has_deco('staticmethod'):
                fr.selfobj = args[0]
                fr.cls = f.cls
            self.bind_args(st, f, args, kw, fid)
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, st, fr)
            if fr.name == '__init__' and fr.selfobj is not None and calls_base_init(node):
                st.cnt[('uninit', fr.selfobj)] = 1
            gen = is_generator(node)
            if gen:
                if mode != 'toplevel' and uses_yield_value(node):
                    dn = [self.deep(st, a) for a in args]
                    return self.event(st, 'coroutine:' + node.name, dn)
                fr.gen = 'ev' if mode == 'toplevel' else 'list'
                st.m[('v', fid, '__yields__')] = t.lst()
            if mode == 'gentype':
                fr.special = {'__gentype__': True}
            ret = self.run_body(node.body, st, fr, toplevel=(mode == 'toplevel'))
            if gen and fr.gen == 'list':
                l = st.m.get(('v', fid, '__yields__'), t.lst())
                return pyv(GenVal(l))
            return ret
        finally:
            self.stack.pop()
            if getattr(node, 'name', None) == '__init__' and isinstance(f, FuncDef) and args:
                self.base_inited(st, args[0])

    def call_generated(self, st, f, args, kw):
        """numba.generated_jit: the body selects an implementation by type"""
        fid = self.newfid()
        fr = Frame(fid, f.mod, None, None, None, None, f.node.name)
        kinds = []
        for a in args:
            kinds.append(mk('numbatype', 'Array' if t.rank(self.val(st, a)) > 0 else 'Float'))
        self.bind_args(st, f, kinds, kw, fid)
        impl = self.run_body(f.node.body, st, fr)
        return self.call(st, impl, args, kw)

    def run_body(self, body, st, fr, toplevel=False):
        s0 = st.copy()
        nrm, exits = self.block(body, s0, fr)
        # ordered exits -> folded result
        effs = []
        before = FALSE
        for e in exits:
            if e.kind in ('break', 'continue'):
                raise Unsupported('loop control outside loop')
            c = t.and_(t.not_(before), e.cond)
            effs.append((c, e))
            before = t.or_(before, e.cond)
        if nrm is not None:
            acc_s, acc_v = nrm, NONE
        else:
            acc_s = acc_v = None
        for e in reversed(exits):
            if e.kind == 'raise':
                continue
            if acc_s is None:
                acc_s, acc_v = e.st, e.val
            else:
                acc_v = self.ite_val(e.cond, e.val, acc_v)
                acc_s = merge(e.cond, e.st, acc_s)
        raises = [(c, e) for c, e in effs if e.kind == 'raise']
        if acc_s is None:
            # always raises
            if raises:
                acc_s, acc_v = raises[-1][1].st, NONE
            else:
                acc_s, acc_v = s0, NONE
        st.become(acc_s)
        for c, e in raises:
            st.raised.append((c, e.st, e.val))
        return acc_v

    def ite_val(self, c, a, b):
        return ite(c, a, b)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        exits = []
        for s in stmts:
            self.tick()
            m = getattr(self, 'st_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('statement %s at line %d' % (type(s).__name__, s.lineno))
            st.raised = []
            nrm, ex = m(s, st, fr)
            if st.raised:
                exits.extend(Exit('raise', c, s_, v) for c, s_, v in st.raised)
                st.raised = []
            if nrm is not None and nrm is not st and nrm.raised:
                exits.extend(Exit('raise', c, s_, v) for c, s_, v in nrm.raised)
                nrm.raised = []
            exits.extend(ex)
            if nrm is None:
                return None, exits
            for e in ex:
                if e.cond is TRUE:
                    return None, exits
            st = nrm
        return st, exits

    def st_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return st, []
        self.ev(n.value, st, fr)
        return st, []

    def st_Pass(self, n, st, fr):
        return st, []

    def st_Import(self, n, st, fr):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            st.m[('v', fr.fid, nm)] = self.resolved(self.proj.resolve(a.name if a.asname else a.name.split('.')[0]) or ('ext', a.name))
        return st, []

    def st_ImportFrom(self, n, st, fr):
        base = n.module or ''
        if n.level:
            raise Unsupported('relative import in function')
        for a in n.names:
            r = self.proj.resolve(base + '.' + a.name) or ('ext', base + '.' + a.name)
            st.m[('v', fr.fid, a.asname or a.name)] = self.resolved(r)
        return st, []

    def st_Global(self, n, st, fr):
        raise Unsupported('global')

    def st_Nonlocal(self, n, st, fr):
        for x in n.names:
            fr.globals_.add(x)
        return st, []

    def st_FunctionDef(self, n, st, fr):
        c = Closure(n, fr, fr.mod, fr.cls, defaults=self.eval_defaults(n.args, st, fr))
        c.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in n.decorator_list]
        st.m[('v', fr.fid, n.name)] = pyv(c)
        return st, []

    def st_ClassDef(self, n, st, fr):
        st.m[('v', fr.fid, n.name)] = pyv(ClassDef(fr.mod, n))
        return st, []

    def st_Return(self, n, st, fr):
        v = NONE if n.value is None else self.ev(n.value, st, fr)
        return None, [Exit('return', TRUE, st, v)]

    def st_Raise(self, n, st, fr):
        if n.exc is None:
            v = app('exc', t.s('reraise'))
        else:
            v = self.ev(n.exc, st, fr)
        return None, [Exit('raise', TRUE, st, self.exc_term(st, v))]

    def exc_term(self, st, v):
        v = self.val(st, v)
        if v.op == 'pyv':
            o = v.args[0].obj
            if isinstance(o, ClassDef):
                return app('exc', t.s(o.name))
            if isinstance(o, tuple):
                return app('exc', t.s(o[1].split('.')[-1]))
        if v.op == 'app' and v.args[0] == 'exc':
            return app('exc', v.args[1])
        if v.op == 'app' and isinstance(v.args[0], str) and v.args[0].split('.')[-1][0:1].isupper():
            return app('exc', t.s(v.args[0].split('.')[-1]))
        if v.op == 'ext':
            return app('exc', t.s(v.args[0].split('.')[-1]))
        return app('exc', v)

    def st_Assert(self, n, st, fr):
        if not self.asserts:
            return st, []
        c = self.test(n.test, st, fr)
        if c is TRUE:
            return st, []
        return st, [Exit('raise', t.not_(c), st.copy(), app('exc', t.s('AssertionError')))]

    def st_Delete(self, n, st, fr):
        for x in n.targets:
            if isinstance(x, ast.Name):
                st.m.pop(('v', fr.fid, x.id), None)
            else:
                raise Unsupported('del')
        return st, []

    def st_Assign(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        for x in n.targets:
            self.assign(x, v, st, fr)
        return st, []

    def st_AnnAssign(self, n, st, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st, fr), st, fr)
        return st, []

    def assign(self, target, v, st, fr):
        if isinstance(target, ast.Name):
            f = fr
            if target.id in fr.globals_:
                f = fr.parent
                while f is not None and ('v', f.fid, target.id) not in st.m:
                    f = f.parent
            st.m[('v', f.fid, target.id)] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.concrete_items(st, self.val(st, v))
                if items is None:
                    raise Unsupported('starred unpack')
                i = star[0]
                after = n - i - 1
                for e, x in zip(target.elts[:i], items[:i]):
                    self.assign(e, x, st, fr)
                self.assign(target.elts[i].value, self.alloc(st, t.lst(*items[i:len(items) - after])), st, fr)
                for e, x in zip(target.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, st, fr)
                return
            vals = self.unpack(st, v, n)
            for e, x in zip(target.elts, vals):
                self.assign(e, x, st, fr)
        elif isinstance(target, ast.Attribute):
            o = self.ev(target.value, st, fr)
            self.setattr(st, o, target.attr, v)
        elif isinstance(target, ast.Subscript):
            o = self.ev(target.value, st, fr)
            k = self.ev_index(target.slice, st, fr)
            self.setitem(st, o, k, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, st, v, n):
        if v.op == 'ite':
            a, b = self.unpack(st, v.args[1], n), self.unpack(st, v.args[2], n)
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        if v.op in ('tup',):
            if len(v.args) == n:
                return list(v.args)
            return [mk('item', v, num(i)) for i in range(n)]
        if v.op == 'nt':
            return list(v.args[2:2 + n])
        if v.op == 'ref':
            return [self.getitem(st, v, num(i)) for i in range(n)]
        c = self.val(st, v)
        return [self.wrap_item(st, t.item(c, num(i))) for i in range(n)]

    def st_AugAssign(self, n, st, fr):
        op = type(n.op).__name__
        x = n.target
        if isinstance(x, ast.Name):
            cur = self.name(x.id, st, fr)
            rhs = self.ev(n.value, st, fr)
            cc = self.val(st, cur)
            if cur.op == 'ref' and (self.isarr(cc) or t.rank(cc) > 0):
                new = self.binop(op, cur, rhs, st)
                self.store_ref(st, cur, new)
            elif cur.op == 'ref' and cc.op in ('list', 'mapl', 'lcat') and op == 'Add':
                self.store_ref(st, cur, listcat(cc, self.listval(st, rhs)))
            elif cur.op == 'ite' and t.rank(cc) > 0:
                self.store_ite(st, cur, op, rhs)
            else:
                new = self.binop(op, cur, rhs, st)
                if cur.op in ('item', 'attr') and t.rank(self.val(st, new)) > 0 and not t.is_boolish(cur):
                    # an array kept somewhere else changes in place
                    c, k = cur.args[:2]
                    if cur.op == 'item':
                        self.setitem(st, c, k, new)
                    else:
                        self.setattr(st, c, k, self.wrap(st, new))
                self.assign(x, self.wrap(st, new), st, fr)
        elif isinstance(x, ast.Subscript):
            o = self.ev(x.value, st, fr)
            k = self.ev_index(x.slice, st, fr)
            cur = self.getitem(st, o, k)
            rhs = self.ev(n.value, st, fr)
            new = self.binop(op, cur, rhs, st)
            if cur.op == 'ref' and t.rank(self.val(st, cur)) > 0 and not self.has_adv(st, k):
                self.store_ref(st, cur, self.val(st, new))
            else:
                self.setitem(st, o, k, new)
        elif isinstance(x, ast.Attribute):
            o = self.ev(x.value, st, fr)
            cur = self.getattr(st, o, x.attr)
            rhs = self.ev(n.value, st, fr)
            new = self.binop(op, cur, rhs, st)
            if cur.op == 'ref' and t.rank(self.val(st, cur)) > 0:
                self.store_ref(st, cur, self.val(st, new))
            else:
                self.setattr(st, o, x.attr, self.wrap(st, new))
        return st, []

    def has_adv(self, st, k):
        k = self.val(st, k)
        ks = k.args if k.op == 'tup' else [k]
        return any(self.val(st, x).op in ('lam', 'cmp', 'slice', 'ellipsis') and x is not FULL for x in ks) or \
            any(x is FULL for x in ks[:-1]) and any(x.op != 'slice' for x in ks)

    def store_ref(self, st, ref, new):
        key = ref.args[0]
        new = self.cast(key, self.val(st, new))
        st.m[key] = self.write(self.rd(st, key), list(ref.args[1:]) + ([FULL] if t.rank(self.val(st, ref)) else []), new) \
            if len(ref.args) > 1 or t.rank(self.rd(st, key)) else new

    def store_ite(self, st, v, op, rhs):
        c = v.args[0]
        for br, cc in ((v.args[1], c), (v.args[2], t.not_(c))):
            if br.op == 'ref':
                key = br.args[0]
                old = self.rd(st, key)
                self.store_ref(st, br, self.binop(op, br, rhs, st))
                st.m[key] = ite(cc, self.rd(st, key), old)
            elif br.op == 'ite':
                raise Unsupported('nested alias gate')

    def st_If(self, n, st, fr):
        c = self.test(n.test, st, fr)
        if c is TRUE:
            return self.block(n.body, st, fr)
        if c is FALSE:
            return self.block(n.orelse, st, fr)
        s1, s2 = st.copy(), st.copy()
        n1, e1 = self.block(n.body, s1, fr)
        n2, e2 = self.block(n.orelse, s2, fr)
        for e in e1:
            e.cond = t.and_(c, e.cond)
        for e in e2:
            e.cond = t.and_(t.not_(c), e.cond)
        if n1 is None and n2 is None:
            return None, e1 + e2
        if n1 is None:
            return n2, e1 + e2
        if n2 is None:
            return n1, e1 + e2
        return merge(c, n1, n2), e1 + e2

    def st_With(self, n, st, fr):
        ctxs = []
        for it in n.items:
            v = self.ev(it.context_expr, st, fr)
            r = self.event(st, 'enter', [self.deep(st, v)])
            ctxs.append(self.deep(st, v))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if v.op in ('app', 'sym', 'attr') else r, st, fr)
        nrm, ex = self.block(n.body, st, fr)
        for s in [nrm] + [e.st for e in ex]:
            if s is not None:
                for c in reversed(ctxs):
                    s.tr = s.tr + (mk('ev', 'exit', c),)
        return nrm, ex

    def st_Try(self, n, st, fr):
        s0 = st.copy()
        base = st.tr
        nrm, ex = self.block(n.body, st.copy(), fr)
        if nrm is not None and n.orelse:
            nrm, ex2 = self.block(n.orelse, nrm, fr)
            ex = ex + ex2
        out_ex = []
        if n.handlers:
            k = s0.cnt.get('try', 0)
            tail = []
            for h in n.handlers:
                types = self.handler_types(h, s0, fr)
                # explicit raises in the body that this handler catches
                rest = []
                for e in ex:
                    if e.kind == 'raise' and self.catches(types, e.val):
                        hs = e.st.copy()
                        if h.name:
                            hs.m[('v', fr.fid, h.name)] = e.val
                        hn, hex_ = self.block(h.body, hs, fr)
                        for x in hex_:
                            x.cond = t.and_(e.cond, x.cond)
                            if x.kind == 'raise' and x.val.args[1] is t.s('reraise'):
                                x.val = e.val
                        rest.extend(hex_)
                        if hn is not None:
                            if nrm is None:
                                nrm = hn
                            else:
                                nrm = merge(e.cond, hn, nrm)
                    else:
                        rest.append(e)
                ex = rest
                cond = mk('raised', num(k), t.s('*' if types in ('Exception', 'BaseException') else types))
                hs = s0.copy()
                hs.cnt['try'] = k + 1
                bodytr = self.body_trace(base, nrm, ex)
                hs.tr = base + (mk('tpart', bodytr),) if bodytr.args else base
                if h.name:
                    hs.m[('v', fr.fid, h.name)] = app('caught', num(k), t.s(types))
                hn, hex_ = self.block(h.body, hs, fr)
                for x in hex_:
                    x.cond = t.and_(cond, x.cond)
                out_ex.extend(hex_)
                tail.append((cond, hn))
            for cond, hn in tail:
                if hn is None:
                    continue
                nrm = hn if nrm is None else merge(cond, hn, nrm)
                ex = [self._guard(e, t.not_(cond)) for e in ex]
            if nrm is not None:
                nrm.cnt['try'] = k + 1
        ex = out_ex + ex
        if n.finalbody:
            res = []
            for i, e in enumerate(ex):
                e0 = e.st.tr
                fn, fx = self.block(n.finalbody, e.st, fr)
                if fn is not None:
                    fn.tr = base + (mk('tfin', mk('trace', *e0[len(base):]), mk('trace', *fn.tr[len(e0):])),)
                    res.append(Exit(e.kind, e.cond, fn, e.val))
                for x in fx:
                    res.append(Exit(x.kind, t.and_(e.cond, x.cond), x.st, x.val))
            ex = res
            if nrm is not None:
                pre = nrm.tr
                nrm, fx = self.block(n.finalbody, nrm, fr)
                ex.extend(fx)
                if nrm is not None:
                    nrm.tr = base + (mk('tfin', mk('trace', *pre[len(base):]), mk('trace', *nrm.tr[len(pre):])),)
        return nrm, ex

    st_TryStar = st_Try

    def _guard(self, e, c):
        e.cond = t.and_(c, e.cond)
        return e

    def body_trace(self, base, nrm, ex):
        if nrm is not None:
            return mk('trace', *nrm.tr[len(base):])
        for e in ex:
            return mk('trace', *e.st.tr[len(base):])
        return mk('trace')

    def handler_types(self, h, st, fr):
        if h.type is None:
            return '*'
        v = self.ev(h.type, st, fr)
        vs = v.args if v.op == 'tup' else [v]
        return '|'.join(sorted(self.clsname(x) for x in vs))

    def clsname(self, v):
        if v.op == 'pyv':
            o = v.args[0].obj
            if isinstance(o, ClassDef):
                return o.name
            if isinstance(o, tuple):
                return o[1].split('.')[-1]
        if v.op == 'ext':
            return v.args[0].split('.')[-1]
        return t.show(v)

    def catches(self, types, exc):
        if types in ('*', 'Exception', 'BaseException'):
            return True
        try:
            nm = exc.args[1].args[0]
        except Exception:
            return False
        return nm in types.split('|')

    def st_Break(self, n, st, fr):
        return None, [Exit('break', TRUE, st)]

    def st_Continue(self, n, st, fr):
        return None, [Exit('continue', TRUE, st)]

    # ----------------------------------------------------------------- loops
    def st_For(self, n, st, fr):
        def body(s2, elem):
            self.assign(n.target, elem, s2, fr)
            return self.block(n.body, s2, fr)
        return self.over(n.iter, body, st, fr, n.orelse, own_break(n.body))

    def over(self, node, body, st, fr, orelse=(), breaks=False):
        """loop over an iterable expression; lazy ones (generator expressions, map, filter,
        chain.from_iterable) are consumed element by element, as at run time"""
        if isinstance(node, ast.GeneratorExp) and (len(node.generators) == 1 or not breaks and not orelse):
            f2 = Frame(self.newfid(), fr.mod, fr, fr.cls, fr.selfobj, None, fr.name)
            f2.special = fr.special

            def gen(i, s, first):
                if i == len(node.generators):
                    return body(s, self.compval(s, self.ev(node.elt, s, f2)))
                g = node.generators[i]

                def inner(s2, elem):
                    self.assign(g.target, elem, s2, f2)
                    c = TRUE
                    for cn in g.ifs:
                        c = t.and_(c, self.test(cn, s2, f2))
                    if c is FALSE:
                        return s2, []
                    s3 = s2.copy()
                    nr, ex = gen(i + 1, s3, False)
                    for e in ex:
                        e.cond = t.and_(c, e.cond)
                    if c is TRUE:
                        return nr, ex
                    return (s2 if nr is None else merge(c, nr, s2)), ex
                return self.over(g.iter, inner, s, fr if i == 0 else f2, orelse if first else (), breaks)
            return gen(0, st, True)
        if isinstance(node, ast.Call) and not node.keywords and not any(isinstance(a, ast.Starred) for a in node.args):
            name = self.lazy_name(node.func, st, fr)
            if name == 'map' and len(node.args) == 2:
                f = self.ev(node.args[0], st, fr)
                return self.over(node.args[1], lambda s2, x: body(s2, self.call(s2, f, [x], {})), st, fr, orelse, breaks)
            if name == 'itertools.chain.from_iterable' and len(node.args) == 1 and not breaks and not orelse:
                return self.over(node.args[0], lambda s2, x: self.loop_over(x, body, s2, fr), st, fr)
        return self.loop_over(self.ev(node, st, fr), body, st, fr, orelse)

    def lazy_name(self, node, st, fr):
        d = dotted(node)
        if d is None:
            return None
        head = d.split('.')[0]
        f = fr
        while f is not None:
            if ('v', f.fid, head) in st.m:
                return None
            f = f.parent
        r = self.proj.lookup(fr.mod.name, head)
        if r is None:
            return d
        if r[0] == 'ext':
            return r[1] + d[len(head):]
        return None

    def peel(self, n, st, fr):
        """a loop without end whose first round is marked by a flag: that round, then the loop of the others"""
        if not (isinstance(n.test, ast.Constant) and n.test.value) or n.orelse:
            return None
        inner = [x for s in n.body for x in ast.walk(s)]
        if any(isinstance(x, (ast.Break, ast.Continue, ast.FunctionDef, ast.Lambda, ast.Nonlocal, ast.Global)) for x in inner):
            return None
        for k, s in enumerate(n.body):
            if not isinstance(s, ast.If):
                continue
            neg = isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not)
            f = s.test.operand if neg else s.test
            if not isinstance(f, ast.Name):
                continue
            flips = [x for x in s.body if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)
                     and x.targets[0].id == f.id and isinstance(x.value, ast.Constant) and x.value.value is neg]
            stores = [x for x in inner if isinstance(x, ast.Name) and x.id == f.id and isinstance(x.ctx, (ast.Store, ast.Del))]
            if len(flips) != 1 or len(stores) != 1:
                continue
            st2 = st.copy()
            v = self.ev(ast.copy_location(ast.Name(f.id, ast.Load()), s), st2, fr)
            if v is not (FALSE if neg else TRUE):
                continue
            first = n.body[:k] + s.body + n.body[k + 1:]
            rest = n.body[:k] + s.orelse + n.body[k + 1:]
            return first + [ast.copy_location(ast.While(n.test, rest or [ast.copy_location(ast.Pass(), n)], []), n)]
        return None

    def st_While(self, n, st, fr):
        peeled = self.peel(n, st, fr)
        if peeled:
            return self.block(peeled, st, fr)
        def body(s2, elem):
            pre_ex = []
            c = self.test(n.test, s2, fr)
            if c is FALSE:
                return None, [Exit('break', TRUE, s2)]
            if c is not TRUE:
                pre_ex.append(Exit('break', t.not_(c), s2.copy()))
            raised = [Exit('raise', cc, s_, v) for cc, s_, v in s2.raised]
            s2.raised = []
            nr, ex = self.block(n.body, s2, fr)
            return nr, raised + pre_ex + ex
        return self.loop_core(ZERO, t.INF, lambda s, i: NONE, body, st, fr)

    def concrete_items(self, st, v):
        if v.op in ('tup', 'list', 'vec') and not any(x.op == 'star' for x in v.args):
            return list(v.args)
        if v.op == 'nt':
            return list(v.args[2:])
        if v.op == 'pyv' and isinstance(v.args[0].obj, GenVal):
            return self.concrete_items(st, v.args[0].obj.lst)
        if v.op == 'pyv' and isinstance(v.args[0].obj, Iter):
            return v.args[0].obj.concrete(self, st)
        if v.op == 'dict' and all(t.is_const(k) for k, _ in v.args):
            return [k for k, _ in v.args]
        return None

    def listval(self, st, v):
        """pure list value of an iterable"""
        v0 = keys_of(self.val(st, v))
        items = self.concrete_items(st, v0)
        if items is not None:
            return t.lst(*[self.deep(st, x) for x in items])
        if v0.op in ('mapl', 'lcat', 'cat', 'list'):
            return v0
        if v0.op == 'lam':
            return mk('mapl', v0.args[0], v0.args[1], TRUE, v0.args[2])
        if v0.op == 'pyv' and isinstance(v0.args[0].obj, Iter):
            # collect through a loop
            key = ('v', self.newfid(), '__lv')
            s2 = st.copy()
            s2.m[key] = t.lst()

            def body(s3, elem):
                s3.m[key] = listapp(s3.m[key], self.compval(s3, elem))
                return s3, []
            nr, ex = self.loop_over(v, body, s2, None)
            if nr is None:
                raise Unsupported('unbounded iterator to list')
            r = nr.m.pop(key)
            st.become(nr)
            st.raised += [(e.cond, e.st, e.val) for e in ex if e.kind == 'raise']
            return r
        if v0.op == 'ite':
            return ite(v0.args[0], self.listval(st, v0.args[1]), self.listval(st, v0.args[2]))
        i = t.fresh_idx()
        if v0.op == 'recs':
            return app('list', v0)
        return mk('mapl', i, t.length(v0), TRUE, t.item(v0, i))

    def domain(self, st, it):
        """-> (kind, ...) iteration space of an iterable value"""
        v = self.val(st, it)
        if v.op == 'pyv':
            o = v.args[0].obj
            if isinstance(o, Iter):
                return o
            if isinstance(o, GenVal):
                return self.domain(st, o.lst)
        return v

    def loop_over(self, it, body, st, fr, orelse=None):
        """exceptions of the body are returned among the exits; those raised before stay with st"""
        pre, st.raised = st.raised, []
        try:
            return self.loop_in(it, raising(body), st, fr, orelse)
        finally:
            st.raised = pre + st.raised

    def loop_in(self, it, body, st, fr, orelse=None):
        v = self.val(st, it)
        w = keys_of(v)
        if w is not v:
            v = it = w
        if v.op == 'app' and v.args[0] == 'tuple' and len(v.args) == 2 and v.args[1].op in ('mapl', 'lcat', 'list'):
            v = it = v.args[1]
        if v.op == 'pyv' and isinstance(v.args[0].obj, GenVal):
            v = self.val(st, v.args[0].obj.lst)
            it = v
        if orelse:
            return self.loop_else(it, body, st, fr, orelse)
        if v.op == 'pyv' and isinstance(v.args[0].obj, Iter):
            return v.args[0].obj.loop(self, body, st, fr)
        if v.op == 'ite' and self.concrete_items(st, v) is None and (v.args[1].op != v.args[2].op or v.args[1].op in ('list', 'mapl')):
            c = v.args[0]
            n1, e1 = self.loop_over(v.args[1], body, st.copy(), fr)
            n2, e2 = self.loop_over(v.args[2], body, st.copy(), fr)
            e1 = [self._guard(e, c) for e in e1]
            e2 = [self._guard(e, t.not_(c)) for e in e2]
            if n1 is None or n2 is None:
                return n1 or n2, e1 + e2
            return merge(c, n1, n2), e1 + e2
        items = self.concrete_items(st, v)
        if items is not None and len(items) <= self.unroll_limit:
            if it.op == 'ref' and v.op == 'vec' and any(self.isarr(x) for x in items):
                items = [self.view(st, mk('ref', it.args[0], *(it.args[1:] + (num(j),)))) for j in range(len(items))]
            return self.unroll(items, body, st, fr)
        if v.op == 'cat':
            # iterate the pieces in sequence
            return self.seq_loops([x for x in v.args], body, st, fr)
        if v.op == 'lcat':
            return self.loop_core(ZERO, app('len', v), lambda s, i: mk('item', v, i), body, st, fr)
        if v.op == 'mapl':
            i0, n, c, e = v.args

            def b2(s, i):
                cc = t.subst(c, {i0: i})
                ee = t.subst(e, {i0: i})
                return cc, ee
            if c is TRUE:
                return self.loop_core(ZERO, n, lambda s, i: self.wrap_item(s, b2(s, i)[1]), body, st, fr)

            def guarded(s, i):
                cc, ee = b2(s, i)
                s3 = s.copy()
                nr, ex = body(s3, self.wrap_item(s3, ee))
                nr = self.absorb(nr, ex)
                ex = [self._guard(x, cc) for x in live(ex)]
                if nr is None:
                    return s, ex
                return merge(cc, nr, s), ex
            return self.loop_core(ZERO, n, lambda s, i: i, guarded, st, fr)
        if v.op == 'recs':
            return self.loop_core(ZERO, mk('len0', v.args[0]), lambda s, i: mk('row', v.args[0], i), body, st, fr)
        if v.op in ('lam', 'vec'):
            if it.op == 'ref':
                return self.loop_core(ZERO, t.length(v), lambda s, i: self.view(s, mk('ref', it.args[0], *(it.args[1:] + (i,)))), body, st, fr)
            return self.loop_core(ZERO, t.length(v), lambda s, i: self.wrap_item(s, t.item(v, i)), body, st, fr)
        if v.op == 'cmp':
            i0, n, c, e = v.args

            def guarded2(s, i):
                cc, ee = t.subst(c, {i0: i}), t.subst(e, {i0: i})
                s3 = s.copy()
                nr, ex = body(s3, self.wrap_item(s3, ee))
                nr = self.absorb(nr, ex)
                ex = [self._guard(x, cc) for x in live(ex)]
                if nr is None:
                    return s, ex
                return merge(cc, nr, s), ex
            return self.loop_core(ZERO, n, lambda s, i: i, guarded2, st, fr)
        if v.op == 'recsel':
            return self.loop_core(ZERO, app('len', v), lambda s, i: mk('item', v, i), body, st, fr)
        return self.loop_core(ZERO, t.length(v), lambda s, i: t.item(v, i), body, st, fr)

    def absorb(self, nr, ex):
        """merge 'continue' exits into the normal outcome"""
        for e in reversed([e for e in ex if e.kind == 'continue']):
            nr = e.st if nr is None else merge(e.cond, e.st, nr)
        return nr

    def loop_else(self, it, body, st, fr, orelse):
        nrm, ex = self.loop_over(it, body, st, fr, None)
        flag = [e for e in ex if e.kind == 'broke']
        raise Unsupported('for-else')

    def seq_loops(self, its, body, st, fr):
        exits = []
        s = st
        for x in its:
            nr, ex = self.loop_over(x, body, s, fr)
            if any(e.kind == 'break' for e in ex):
                raise Unsupported('break over concatenated iterables')
            exits += ex
            if nr is None:
                return None, exits
            s = nr
        return s, exits

    def unroll(self, items, body, st, fr):
        exits = []
        breaks = []      # (cond, state)
        s = st
        for x in items:
            s.raised = []
            nr, ex = body(s, x)
            rs = s.raised
            exits_here = [Exit('raise', c, s_, v) for c, s_, v in rs] + ex
            s.raised = []
            nr = self.absorb(nr, exits_here)
            exits += live(exits_here)
            if nr is None:
                s = None
                break
            s = nr
        # ordered exits: resolve breaks into normal flow
        if any(e.kind == 'break' for e in exits):
            acc = s
            rest = []
            before = FALSE
            effs = []
            for e in exits:
                c = t.and_(t.not_(before), e.cond)
                effs.append((c, e))
                before = t.or_(before, e.cond)
            for c, e in reversed(effs):
                if e.kind == 'break':
                    acc = e.st if acc is None else merge(c, e.st, acc)
            exits = [Exit(e.kind, c, e.st, e.val) for c, e in effs if e.kind != 'break']
            s = acc
        return s, exits

    # the loop rule: one abstract iteration over symbolic carried values
    def loop_core(self, lo, hi, elem, body, st, fr):
        from .loops import run_loop
        self.loops += 1
        return run_loop(self, lo, hi, elem, body, st, fr)


class Iter:
    """lazily described iteration space (range, enumerate, zip, ...)"""
    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        self.seen = None

    def concrete(self, I, st):
        k = self.kind
        if k == 'range':
            lo, hi, step = self.args
            if all(x.op == 'num' for x in self.args):
                r = range(int(lo.args[0]), int(hi.args[0]), int(step.args[0]))
                if len(r) <= I.unroll_limit:
                    return [num(x) for x in r]
            return None
        subs = []
        for a in self.args:
            if k == 'enumerate' and a is self.args[1]:
                continue
            it = I.concrete_items(st, I.val(st, a))
            if it is None:
                return None
            v = I.val(st, a)
            if a.op == 'ref' and v.op == 'vec' and any(I.isarr(x) for x in it):
                it = [I.view(st, mk('ref', a.args[0], *(a.args[1:] + (num(j),)))) for j in range(len(it))]
            subs.append(it)
        if k == 'zip':
            return [tup(*xs) for xs in zip(*subs)]
        if k == 'enumerate':
            return [tup(t.add(num(i), self.args[1]), x) for i, x in enumerate(subs[0])]
        if k == 'product':
            import itertools
            r = [tup(*xs) for xs in itertools.product(*subs)]
            return r if len(r) <= I.unroll_limit * 2 else None
        if k == 'reversed':
            return list(reversed(subs[0]))
        return None

    def space(self, I, st):
        """(lo, hi, elem(state, idx)) or None"""
        k = self.kind
        if k == 'range':
            lo, hi, step = self.args
            if step.op == 'num' and step.args[0] == 1:
                return lo, hi, lambda s, i: i
            if step.op == 'num' and step.args[0] == -1:
                return ZERO, t.sub(lo, hi), lambda s, i: t.sub(lo, i)
            n = app('ceil', t.div(t.sub(hi, lo), step))
            return ZERO, n, lambda s, i: t.add(lo, t.mul(i, step))
        if k == 'count':
            return ZERO, t.INF, lambda s, i: t.add(self.args[0], i)
        if k == 'enumerate':
            sp = space_of(I, st, self.args[0])
            if sp is None:
                return None
            lo, hi, e = sp
            return lo, hi, lambda s, i: tup(t.add(t.sub(i, lo), self.args[1]), e(s, i))
        if k == 'zip':
            sps = [space_of(I, st, a) for a in self.args]
            if any(x is None for x in sps):
                return None
            lo, hi, _ = sps[0]
            for l2, h2, _ in sps[1:]:
                if t.sub(h2, l2) is t.sub(hi, lo):
                    continue
                if hi is t.INF:
                    lo, hi = l2, h2
                elif h2 is t.INF:
                    pass
                else:
                    hi = t.add(lo, mk('app', 'min2', *sorted((t.sub(hi, lo), t.sub(h2, l2)), key=lambda x: x.uid)))
            return lo, hi, lambda s, i: tup(*[e(s, t.add(t.sub(i, lo), l)) for l, h, e in sps])
        if k == 'reversed':
            sp = space_of(I, st, self.args[0])
            if sp is None:
                return None
            lo, hi, e = sp
            return lo, hi, lambda s, i: e(s, t.sub(t.sub(t.add(hi, lo), ONE), i))
        if k == 'map':
            sp = space_of(I, st, self.args[1])
            if sp is None:
                return None
            lo, hi, e = sp
            return lo, hi, lambda s, i: I.call(s, self.args[0], [e(s, i)], {})
        return None

    def loop(self, I, body, st, fr):
        items = self.concrete(I, st)
        if items is not None and len(items) <= I.unroll_limit * 2:
            return I.unroll(items, body, st, fr)
        if self.kind == 'chain':
            return I.seq_loops(list(self.args), body, st, fr)
        if self.kind == 'product':
            its = list(self.args)

            def nest(i, acc):
                def b(s, e):
                    a2 = acc + [e]
                    if i == len(its) - 1:
                        nr, ex = body(s, tup(*a2))
                        if any(x.kind == 'break' for x in ex):
                            raise Unsupported('break in product loop')
                        return nr, ex
                    return I.loop_over(its[i + 1], nest(i + 1, a2), s, fr)
                return b
            return I.loop_over(its[0], nest(0, []), st, fr)
        if self.kind == 'chain_nested':
            def b(s, e):
                def inner(s2, e2):
                    nr, ex = body(s2, e2)
                    if any(x.kind == 'break' for x in ex):
                        raise Unsupported('break in chained loop')
                    return nr, ex
                return I.loop_over(e, inner, s, fr)
            return I.loop_over(self.args[0], b, st, fr)
        if self.kind == 'filter':
            def b(s, e):
                c = I.truth(s, I.call(s, self.args[0], [e], {}))
                s3 = s.copy()
                nr, ex = body(s3, e)
                nr = I.absorb(nr, ex)
                ex = [I._guard(x, c) for x in live(ex)]
                if nr is None:
                    return s, ex
                return merge(c, nr, s), ex
            return I.loop_over(self.args[1], b, st, fr)
        sp = self.space(I, st)
        if sp is None:
            if self.kind in ('enumerate', 'zip'):
                # fall back to the pure list of the component
                args = []
                for a in self.args:
                    if self.kind == 'enumerate' and a is self.args[1]:
                        args.append(a)
                        continue
                    if space_of(I, st, a) is None:
                        l = I.listval(st, a)
                        if l.op == 'mapl' and l.args[2] is TRUE or l.op == 'list':
                            args.append(I.alloc(st, l))
                        else:
                            args.append(app('aslist', l))
                    else:
                        args.append(a)
                it2 = Iter(self.kind, *args)
                sp = it2.space(I, st)
            if sp is None:
                raise Unsupported('iteration space %s' % self.kind)
        lo, hi, e = sp
        return I.loop_core(lo, hi, e, body, st, fr)


def space_of(I, st, a):
    v = I.val(st, a)
    if v.op == 'pyv':
        o = v.args[0].obj
        if isinstance(o, Iter):
            return o.space(I, st)
        if isinstance(o, GenVal):
            return space_of(I, st, o.lst)
        return None
    if v.op == 'recs':
        return ZERO, mk('len0', v.args[0]), lambda s, i: mk('row', v.args[0], i)
    if v.op in ('mapl',):
        if v.args[2] is not TRUE:
            return None
        return ZERO, v.args[1], lambda s, i: I.wrap_item(s, t.subst(v.args[3], {v.args[0]: i}))
    if v.op in ('lcat', 'cat', 'cmp'):
        return None
    if v.op in ('lam', 'vec', 'list', 'tup'):
        if a.op == 'ref':
            return ZERO, t.length(v), lambda s, i: I.view(s, mk('ref', a.args[0], *(a.args[1:] + (i,))))
        return ZERO, t.length(v), lambda s, i: I.wrap_item(s, t.item(v, i))
    if v.op == 'dict':
        return None
    return ZERO, t.length(v), lambda s, i: t.item(v, i)


class NamedT:
    def __init__(self, node, mod, I, cls=None):
        self.fields = ()
        self.nm = '?'
        if cls is not None:
            self.nm = cls.name
            self.fields = tuple(s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign))
        elif node is not None:
            try:
                self.nm = node.args[0].value
                a = node.args[1]
                if isinstance(a, ast.Constant):
                    self.fields = tuple(a.value.replace(',', ' ').split())
                else:
                    out = []
                    for e in a.elts:
                        if isinstance(e, ast.Tuple):
                            out.append(e.elts[0].value)
                        else:
                            out.append(e.value)
                    self.fields = tuple(out)
            except Exception:
                raise Unsupported('namedtuple')

    def make(self, args, kw):
        d = dict(zip(self.fields, args))
        d.update(kw)
        return mk('nt', self.nm, self.fields, *[d.get(f, mk('missing', f)) for f in self.fields])


FULL = mk('slice', NONE, NONE, NONE)
STRUCTREF = ('ref', 'tup', 'recs', 'row', 'pyv')

import builtins as _b
BUILTINS = set(dir(_b))

_ext = {}
_mods = {}


def pyv_ext(path):
    if path not in _ext:
        _ext[path] = ('ext', path)
    return pyv(_ext[path])


def pyv_mod(path):
    if path not in _mods:
        _mods[path] = ('mod', path)
    return pyv(_mods[path])


# methods that do not look at simulation state
BLIND = {'append', 'put', 'set', 'add', 'writerow', 'error', 'info', 'debug', 'warning', 'write', 'seek', 'truncate', 'close', 'clear', 'remove', 'discard',
         'extend', 'insert', '__init__', 'is_set', 'format', 'join', 'split', 'strip', 'start', 'terminate', 'contains_points', 'buffer'}
FLAT = {'anytree', 'traitlets', 'shapely', 'dateutil', 'collections', 'configobj', 'matplotlib', 'numba', 'sortedcontainers', 'traittypes', 'cell_lists', 'multiprocessing'}


def canon_ext(path):
    if path.startswith('np.'):
        path = 'numpy.' + path[3:]
    if path == 'np':
        path = 'numpy'
    parts = path.split('.')
    if len(parts) > 2 and parts[0] in FLAT:
        # the packages re-export these names; where one is imported from does not matter
        path = parts[0] + '.' + parts[-1]
    return path


def is_str(v):
    return v.op in ('str', 'strcat') or (v.op == 'app' and v.args[0] in ('str', 'fmt', 'os.path.join', 'os.path.abspath', 'fmtcall'))


def keys_of(v):
    """iterating a mapping visits its keys"""
    if v.op == 'attr' and v.args[1] == 'fields' and v.args[0].op == 'app' and v.args[0].args[0] in ('dtype', 'numpy.dtype'):
        return mk('attr', v.args[0], 'names')
    if v.op == 'ite':
        a, b = keys_of(v.args[1]), keys_of(v.args[2])
        if a is not v.args[1] or b is not v.args[2]:
            return ite(v.args[0], a, b)
    return v


def first_def(n):
    g = n.args[0]
    body = [ast.Return(g.elt)]
    for c in reversed(g.generators):
        for i in reversed(c.ifs):
            body = [ast.If(i, body, [])]
        body = [ast.For(c.target, c.iter, body, [])]
    if len(n.args) == 2:
        body.append(ast.Return(ast.Name('__default', ast.Load())))
        ps = [ast.arg('__default')]
    else:
        body.append(ast.Raise(ast.Call(ast.Name('StopIteration', ast.Load()), [], []), None))
        ps = []
    f = ast.FunctionDef('next', ast.arguments([], ps, None, [], [], None, []), body, [])
    ast.copy_location(f, n)
    return ast.fix_missing_locations(f)


def strcat(*parts):
    out = []
    for p in parts:
        if p.op == 'strcat':
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if q.op == 'str' and q.args[0] == '':
                continue
            if q.op == 'app' and q.args[0] == 'str' and len(parts) > 1:
                q = q.args[1]
            if out and out[-1].op == 'str' and q.op == 'str':
                out[-1] = t.s(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return t.s('')
    if len(out) == 1:
        return out[0]
    return mk('strcat', *out)


def listapp(l, x):
    if l.op == 'list':
        return t.lst(*(l.args + (x,)))
    return mk('lcat', l, t.lst(x)) if l.op != 'lcat' else listcat(l, t.lst(x))


def listcat(a, b):
    if a.op in ('list', 'tup') and b.op == a.op:
        return mk(a.op, *(a.args + b.args))
    if a.op == 'list' and not a.args:
        return b
    if b.op == 'list' and not b.args:
        return a
    if a.op == 'cat' or b.op == 'cat' or a.op in ('list', 'mapl') and b.op in ('list', 'mapl'):
        xs = list(a.args if a.op == 'cat' else [a]) + list(b.args if b.op == 'cat' else [b])
        out = []
        for x in xs:
            if out and out[-1].op == 'list' and x.op == 'list':
                out[-1] = t.lst(*(out[-1].args + x.args))
            else:
                out.append(x)
        return out[0] if len(out) == 1 else mk('cat', *out)
    return mk('lcat', a, b)


def live(exits):
    """exits are ordered, each taken when none before it is: the ones that are no continue"""
    out, before = [], FALSE
    for e in exits:
        if e.kind == 'continue':
            before = t.or_(before, e.cond)
        else:
            out.append(e if before is FALSE else Exit(e.kind, t.and_(t.not_(before), e.cond), e.st, e.val))
    return out


def own_break(body):
    """a break that belongs to this loop"""
    for x in body:
        if isinstance(x, ast.Break):
            return True
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            continue
        for name in ('body', 'orelse', 'finalbody', 'handlers'):
            if name == 'body' and isinstance(x, (ast.For, ast.While)):
                continue
            sub = getattr(x, name, None)
            if isinstance(sub, list) and own_break([y for h in sub for y in (h.body if isinstance(h, ast.ExceptHandler) else [h])]):
                return True
    return False


def is_generator(node):
    for x in walk_own(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_own(node):
    stack = list(node.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        yield x
        stack.extend(ast.iter_child_nodes(x))


def calls_base_init(node):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__' and
               isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super'
               for n in ast.walk(node))


def uses_yield_value(node):
    plain = set()
    for x in walk_own(node):
        if isinstance(x, ast.Expr) and isinstance(x.value, (ast.Yield, ast.YieldFrom)):
            plain.add(id(x.value))
    for x in walk_own(node):
        if isinstance(x, ast.Yield) and id(x) not in plain:
            return True
    return False
