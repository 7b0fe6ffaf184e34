"""Transfer functions of builtins, numpy and the other libraries the analysed
package calls.  Unknown pure calls stay uninterpreted; calls with an effect
become trace events."""
import string
from fractions import Fraction
from . import terms as t
from .terms import T, mk, num, app, ite, ZERO, ONE, TRUE, FALSE, NONE, pyv, tup
from .loops import mksum, mkexists, mkforall, mkmapl, mkflat, isdict, entries, mkdict

RANDOM = {'random', 'uniform', 'randint', 'normal', 'exponential', 'choice', 'rand', 'randn', 'standard_normal',
          'poisson', 'random_sample', 'permutation'}


def length(I, st, v):
    v = I.val(st, v)
    if v.op == 'pyv':
        o = v.args[0].obj
        if hasattr(o, 'lst'):
            return length(I, st, o.lst)
        m = I.user_method(v, '__len__')
        if m:
            return I.call(st, m, [], {})
        return app('len', I.deep(st, v))
    if v.op == 'recs':
        return mk('len0', v.args[0])
    if v.op == 'recsel':
        return length(I, st, t.item(t.lam(t.fresh_idx(), ZERO, ZERO), ZERO)) if False else app('len', v)
    if v.op == 'mapl':
        i, n, c, e = v.args
        return mksum(i, ZERO, n, ite(c, ONE, ZERO))
    if v.op == 'cmp':
        i, n, c, e = v.args
        return mksum(i, ZERO, n, ite(c, ONE, ZERO))
    if v.op == 'cat':
        return t.add(*[length(I, st, x) for x in v.args])
    if v.op == 'lcat':
        return t.add(length(I, st, v.args[0]), length(I, st, v.args[1]))
    if v.op == 'strcat':
        return t.add(*[length(I, st, x) for x in v.args])
    if v.op == 'ite':
        return ite(v.args[0], length(I, st, v.args[1]), length(I, st, v.args[2]))
    m = I.user_method(v, '__len__')
    if m:
        return I.call(st, m, [], {})
    return t.length(I.deep(st, v) if v.op in ('tup', 'list') else v)


def shape_of(v):
    if v.op == 'vec':
        return (num(len(v.args)),) + (shape_of(v.args[0]) if v.args else ())
    if v.op == 'lam':
        return (v.args[1],) + shape_of(v.args[2])
    if v.op == 'cmp':
        i, n, c, e = v.args
        return (mksum(i, ZERO, n, ite(c, ONE, ZERO)),) + shape_of(e)
    if v.op == 'ite' and t.rank(v):
        a, b = shape_of(v.args[1]), shape_of(v.args[2])
        if len(a) == len(b):
            return tuple(ite(v.args[0], x, y) for x, y in zip(a, b))
    return ()


def value_attr(I, st, v, name):
    from .interp import Meth
    c = I.val(st, v)
    if t.rank(c) > 0:
        sh = shape_of(c)
        if name == 'shape':
            return tup(*sh)
        if name == 'size':
            return t.mul(*sh)
        if name == 'ndim':
            return num(len(sh))
        if name == 'T':
            return I.wrap(st, transpose(c))
        if name == 'dtype':
            return mk('attr', c, 'dtype')
    return pyv(Meth(v, name))


def transpose(c):
    sh = shape_of(c)
    if len(sh) < 2:
        return c
    def row(j):
        return I_axis(c, lambda x: t.item(x, j))
    if sh[1].op == 'num':
        return mk('vec', *[row(num(j)) for j in range(int(sh[1].args[0]))])
    j = t.fresh_idx()
    return t.lam(j, sh[1], row(j))


def I_axis(c, f):
    if c.op == 'vec':
        return mk('vec', *[f(x) for x in c.args])
    if c.op == 'lam':
        return t.lam(c.args[0], c.args[1], f(c.args[2]))
    if c.op == 'cmp':
        return mk('cmp', c.args[0], c.args[1], c.args[2], f(c.args[3]))
    if c.op == 'ite':
        return ite(c.args[0], I_axis(c.args[1], f), I_axis(c.args[2], f))
    i = t.fresh_idx()
    return t.lam(i, t.length(c), f(t.item(c, i)))


def dot(I, a, b):
    ra, rb = t.rank(a), t.rank(b)
    if ra == 1 and rb == 1:
        return asum(I.emap(t.mul, a, b))
    if ra == 2 and rb == 1:
        return I.axis_map(a, lambda r: dot(I, r, b))
    return app('dot', a, b)


def asum(c):
    """sum over the first axis"""
    if c.op == 'vec':
        if c.args and t.rank(c.args[0]) > 0:
            r = c.args[0]
            for x in c.args[1:]:
                r = eadd(r, x)
            return r
        return t.add(*c.args) if c.args else ZERO
    if c.op == 'lam':
        return mksum(c.args[0], ZERO, c.args[1], c.args[2])
    if c.op == 'cmp':
        i, n, m, e = c.args
        if t.rank(e) == 0:
            return mksum(i, ZERO, n, ite(m, e, ZERO))
        if e.op == 'vec':
            return mk('vec', *[mksum(i, ZERO, n, ite(m, x, ZERO)) for x in e.args])
    if c.op == 'ite':
        return ite(c.args[0], asum(c.args[1]), asum(c.args[2]))
    return app('asum', c)


def eadd(a, b):
    if a.op == 'vec' and b.op == 'vec':
        return mk('vec', *[eadd(x, y) for x, y in zip(a.args, b.args)])
    return t.add(a, b)


def full_sum(c):
    while t.rank(c) > 0:
        c = asum(c)
    return c


def bfold(c, any_):
    """any/all over every element"""
    if c.op == 'vec':
        return (t.or_ if any_ else t.and_)(*[bfold(x, any_) for x in c.args])
    if c.op == 'lam':
        f = bfold(c.args[2], any_)
        return mkexists(c.args[0], ZERO, c.args[1], f) if any_ else mkforall(c.args[0], ZERO, c.args[1], f)
    if c.op == 'cmp':
        i, n, m, e = c.args
        f = bfold(e, any_)
        return mkexists(i, ZERO, n, t.and_(m, f)) if any_ else mkforall(i, ZERO, n, t.or_(t.not_(m), f))
    if c.op == 'ite':
        return ite(c.args[0], bfold(c.args[1], any_), bfold(c.args[2], any_))
    return t.truth(c)


def trunc(x):
    if x.op == 'num':
        v = x.args[0]
        return num(int(v))
    if x.op == 'app' and x.args[0] in ('floor', 'trunc', 'len', 'ceil'):
        return x
    if x.op == 'add' and all(y.op in ('idx', 'len0', 'len1') or (y.op == 'num' and y.args[0].denominator == 1) or
                             (y.op == 'app' and y.args[0] in ('floor', 'trunc', 'len')) for y in x.args):
        return x
    if x.op in ('idx', 'len0', 'len1', 'sum') or (x.op == 'el' and x.args[0] == 'int') or (x.op == 'sym' and x.args[1] == 'int'):
        return x
    if x.op == 'ite':
        return ite(x.args[0], trunc(x.args[1]), trunc(x.args[2]))
    if t.is_boolish(x):
        return ite(x, ONE, ZERO)
    return app('trunc', x)


_floaty = {}


def floaty(x):
    """certainly not always an integer"""
    r = _floaty.get(x)
    if r is None:
        o = x.op
        if o == 'num':
            r = x.args[0].denominator != 1
        elif o == 'add' or o == 'mul':
            r = any(floaty(y) for y in x.args)
        elif o == 'pow':
            r = x.args[1] < 0 if isinstance(x.args[1], int) else True
        elif o == 'ite':
            r = floaty(x.args[1]) or floaty(x.args[2])
        elif o in ('el', 'sym', 'cel'):
            r = x.args[0] == 'real' or len(x.args) > 1 and x.args[1] == 'real'
        elif o == 'app':
            r = x.args[0] in ('sqrt', 'exp', 'sin', 'cos', 'arctan2', 'log', 'float', 'mean', 'arccos')
        elif o == 'item':
            r = floaty(x.args[0])
        elif o == 'sum':
            r = floaty(x.args[-1])
        else:
            r = False
        _floaty[x] = r
    return r


def to_int(x):
    return trunc(x) if floaty(x) or t.is_boolish(x) else x


def abs_(x):
    if x.op == 'num':
        return num(abs(x.args[0]))
    return app('abs', _possign(x))


def _possign(x):
    # |x| == |-x|
    y = t.neg(x)
    return x if (x.op, x.uid) <= (y.op, y.uid) else y


def sqrt(x):
    if x.op == 'num' and x.args[0] >= 0:
        import math
        v = x.args[0]
        a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return num(Fraction(a, b))
    return app('sqrt', x)


def sign(x):
    if x.op == 'num':
        return num((x.args[0] > 0) - (x.args[0] < 0))
    return ite(t.lt(ZERO, x), ONE, ite(t.lt(x, ZERO), num(-1), ZERO))


def max2(a, b):
    return ite(t.lt(a, b), b, a)


def min2(a, b):
    return ite(t.lt(b, a), b, a)


def scalar1(name):
    def f(x):
        if x.op == 'num' and x.args[0] == 0 and name in ('sin', 'tan', 'arctan', 'sinh'):
            return ZERO
        if x.op == 'num' and x.args[0] == 0 and name in ('cos', 'exp', 'cosh'):
            return ONE
        return app(name, x)
    return f


ELEM1 = {'sqrt': sqrt, 'exp': scalar1('exp'), 'log': scalar1('log'), 'sin': scalar1('sin'), 'cos': scalar1('cos'), 'tan': scalar1('tan'),
         'abs': abs_, 'absolute': abs_, 'fabs': abs_, 'floor': t.floor, 'ceil': lambda x: t.neg(t.floor(t.neg(x))), 'trunc': trunc, 'fix': trunc,
         'sign': sign, 'isnan': t.isnan, 'logical_not': lambda x: t.not_(t.truth(x)), 'square': lambda x: t.mul(x, x),
         'deg2rad': lambda x: t.mul(x, t.PI, num(Fraction(1, 180))), 'radians': lambda x: t.mul(x, t.PI, num(Fraction(1, 180))),
         'rad2deg': lambda x: t.mul(x, t.div(num(180), t.PI)), 'degrees': lambda x: t.mul(x, t.div(num(180), t.PI)),
         'negative': t.neg, 'arctan': scalar1('arctan'), 'acos': scalar1('arccos'), 'arccos': scalar1('arccos'), 'arcsin': scalar1('arcsin'),
         'isinf': lambda x: app('isinf', x), 'isfinite': lambda x: t.and_(t.not_(t.isnan(x)), t.not_(t.truth(app('isinf', x)))),
         'reciprocal': lambda x: t.div(ONE, x), 'int64': trunc, 'int32': trunc, 'intp': trunc, 'float64': lambda x: x, 'float32': lambda x: x,
         'bool_': t.truth, 'int_': trunc, 'float_': lambda x: x, 'log2': scalar1('log2'), 'log10': scalar1('log10'), 'tanh': scalar1('tanh'), 'nan_to_num': lambda x: ite(t.isnan(x), ZERO, x)}
ELEM2 = {'hypot': lambda a, b: sqrt(t.add(t.mul(a, a), t.mul(b, b))), 'arctan2': lambda a, b: app('arctan2', a, b),
         'maximum': max2, 'minimum': min2, 'fmax': max2, 'fmin': min2, 'add': t.add, 'subtract': t.sub, 'multiply': t.mul, 'divide': t.div, 'true_divide': t.div,
         'power': t.power, 'mod': t.mod, 'remainder': t.mod, 'floor_divide': t.floordiv,
         'logical_and': lambda a, b: t.and_(t.truth(a), t.truth(b)), 'logical_or': lambda a, b: t.or_(t.truth(a), t.truth(b)),
         'logical_xor': lambda a, b: ite(t.truth(a), t.not_(t.truth(b)), t.truth(b)),
         'equal': t.eq, 'not_equal': lambda a, b: t.not_(t.eq(a, b)), 'less': t.lt, 'less_equal': t.le,
         'greater': lambda a, b: t.lt(b, a), 'greater_equal': lambda a, b: t.le(b, a)}
for _a, _b in (('atan2', 'arctan2'), ('pow', 'power'), ('fmod', 'mod')):
    ELEM2[_a] = ELEM2[_b]
ELEM1['atan'] = ELEM1['arctan']
ELEM1['asin'] = ELEM1['arcsin']


def isclose(a, b):
    if a is b:
        return TRUE
    x, y = sorted((a, b), key=lambda z: z.uid)
    return t.truth(app('isclose', x, y))


def dtype_class(I, st, d):
    """'f', 'i', 'b' or None (record or unknown)"""
    if d is None:
        return 'f'
    d = I.val(st, d)
    nm = ''
    if d.op == 'pyv' and isinstance(d.args[0].obj, tuple):
        nm = d.args[0].obj[1].split('.')[-1]
    elif d.op == 'str':
        nm = d.args[0]
    elif d.op == 'ext':
        nm = d.args[0].split('.')[-1]
    elif d.op == 'attr' and d.args[1] == 'dtype':
        return 'f'
    if nm.startswith('bool') or nm == '?':
        return 'b'
    if nm.startswith('int') or nm.startswith('uint') or nm in ('i8', 'long'):
        return 'i'
    if nm.startswith('float') or nm in ('f8', 'double'):
        return 'f'
    return None


def dims(I, st, shp):
    v = I.val(st, shp)
    if v.op in ('tup', 'list'):
        return [I.val(st, x) for x in v.args]
    if v.op == 'ite' or v.op in ('sym', 'attr', 'item'):
        # a shape of unknown rank
        if v.op == 'attr' and v.args[1] == 'shape':
            return None
    return [v]


def filled(ds, x):
    if not ds:
        return x
    n = ds[0]
    if n.op == 'num' and n.args[0] <= 16:
        return mk('vec', *[filled(ds[1:], x) for _ in range(int(n.args[0]))])
    return t.lam(t.fresh_idx(), n, filled(ds[1:], x))


def like(c, x):
    if c.op == 'vec':
        return mk('vec', *[like(y, x) for y in c.args])
    if c.op == 'lam':
        return t.lam(c.args[0], c.args[1], like(c.args[2], x))
    if c.op == 'cmp':
        return mk('cmp', c.args[0], c.args[1], c.args[2], like(c.args[3], x))
    if c.op == 'ite':
        return ite(c.args[0], like(c.args[1], x), like(c.args[2], x))
    return x


def to_array(I, st, v):
    """pure array content of array-like"""
    v = I.val(st, v)
    if v.op in ('vec', 'lam', 'cmp'):
        return v
    if v.op in ('list', 'tup') and not any(x.op == 'star' for x in v.args):
        return mk('vec', *[to_array(I, st, x) for x in v.args])
    if v.op == 'mapl':
        i, n, c, e = v.args
        e = to_array(I, st, e)
        return t.lam(i, n, e) if c is TRUE else mk('cmp', i, n, c, e)
    if v.op == 'nt':
        return mk('vec', *[to_array(I, st, x) for x in v.args[2:]])
    if v.op == 'pyv' and hasattr(v.args[0].obj, 'lst'):
        return app('array', I.deep(st, v))
    if v.op in ('cat', 'lcat', 'mapflat'):
        return app('array', I.deep(st, v))
    if v.op == 'ite':
        return ite(v.args[0], to_array(I, st, v.args[1]), to_array(I, st, v.args[2]))
    return v


def arr(I, st, v):
    v = I.val(st, v)
    if v.op in ('list', 'tup', 'mapl', 'nt'):
        return to_array(I, st, v)
    if v.op == 'pyv':
        return I.deep(st, v)
    return v


def kwtuple(I, st, kw):
    return tuple(tup(t.s(k), I.deep(st, v)) for k, v in sorted(kw.items()))


def pure(I, st, name, args, kw):
    a = tuple(I.deep(st, x) for x in args)
    drop = ()
    if 'dtype' in kw and name.split('.')[0] == 'numpy':
        dc = dtype_class(I, st, kw['dtype'])
        if dc == 'f':
            drop = {'dtype'}
        elif dc is not None:
            kw = dict(kw, dtype=t.s(dc))
    kws = kwtuple(I, st, {k: v for k, v in kw.items() if k not in drop})
    short = name
    for p in ('numpy.', 'math.', 'builtins.'):
        if short.startswith(p):
            short = short[len(p):]
    return app(short, *(a + kws))


def numpy_call(I, st, f, args, kw, fr):
    v = [I.val(st, a) for a in args]
    W = lambda x: I.wrap(st, x)
    if f in ELEM1 and len(args) == 1:
        if f in ('int64', 'float64') and v[0].op in ('str', 'strcat'):
            return app('trunc' if f == 'int64' else 'float', v[0])
        return W(I.emap(ELEM1[f], arr(I, st, v[0])))
    if f in ELEM2 and len(args) == 2:
        return W(I.emap(ELEM2[f], arr(I, st, v[0]), arr(I, st, v[1])))
    if f in ('zeros', 'ones', 'empty', 'full'):
        shp = args[0] if args else kw.get('shape')
        if f == 'full':
            fv = args[1] if len(args) > 1 else kw.get('fill_value')
            fill = I.deep(st, fv)
            dt = args[2] if len(args) > 2 else kw.get('dtype')
        else:
            dt = args[1] if len(args) > 1 else kw.get('dtype')
            fill = {'zeros': ZERO, 'ones': ONE, 'empty': app('uninit')}[f]
        dc = dtype_class(I, st, dt)
        ds = dims(I, st, shp)
        if ds is not None and len(ds) == 1 and ds[0] is ZERO:
            return I.alloc(st, mk('vec'))
        if dc is None or ds is None:
            if dc == 'f' and t.is_boolish(fill) and dt is None:
                dc = 'b'
            if dc == 'b':
                fill = t.truth(fill)
            return I.alloc(st, app('full', I.deep(st, shp), fill, *({'f': []}.get(dc, [t.s(dc) if dc else I.deep(st, dt)]))))
        if dc == 'b':
            fill = t.truth(fill) if fill.op == 'num' else fill
        elif dc == 'i':
            fill = to_int(fill)
        r = I.alloc(st, filled(ds, fill))
        if dc in ('i', 'b'):
            I.dtypes[r.args[0]] = dc
        return r
    if f in ('zeros_like', 'ones_like', 'empty_like', 'full_like', 'copy', 'array', 'asarray', 'ascontiguousarray', 'atleast_1d', 'asfarray'):
        x = v[0]
        if f.endswith('_like'):
            c = arr(I, st, x)
            fill = {'zeros_like': ZERO, 'ones_like': ONE, 'empty_like': app('uninit')}.get(f)
            if f == 'full_like':
                fill = I.deep(st, args[1])
            if 'dtype' in kw:
                dc = dtype_class(I, st, kw['dtype'])
            else:
                dc = I.dtypes.get(args[0].args[0]) if args[0].op == 'ref' else 'f'
            if dc == 'b':
                fill = t.truth(fill)
            elif dc == 'i':
                fill = to_int(fill)
            if t.rank(c) == 0 or dc is None and 'dtype' in kw:
                return app(f, I.deep(st, c), *([I.deep(st, kw['dtype'])] if dc is None else [])) if c.op in ('sym', 'attr', 'app', 'item') else fill
            r = I.alloc(st, like(c, fill))
            if dc in ('i', 'b'):
                I.dtypes[r.args[0]] = dc
            return r
        dt = kw.get('dtype', args[1] if len(args) > 1 else None)
        if dt is not None and I.val(st, dt) is NONE:
            dt = None
        if dt is not None:
            dc = dtype_class(I, st, dt)
            if dc is None:
                return app('array', I.deep(st, to_array(I, st, v[0])), I.deep(st, dt))
            if dc != 'f':
                r = numpy_call(I, st, f, args[:1], {}, fr)
                return W(I.emap(to_int if dc == 'i' else t.truth, arr(I, st, r)))
        if x.op in ('recs', 'row', 'recsel'):
            if f in ('asarray', 'ascontiguousarray'):
                return x
            return app('npcopy', I.deep(st, x))
        if f in ('asarray', 'ascontiguousarray', 'asfarray', 'atleast_1d') and args[0].op == 'ref' and I.isarr(x):
            return args[0]
        c = to_array(I, st, x)
        c = deep_arr(I, st, c)
        if I.isarr(c) or t.rank(c) > 0:
            return I.alloc(st, c)
        if c.op in ('sym', 'attr', 'item', 'ref') and f in ('asarray', 'ascontiguousarray'):
            return c
        if f in ('asarray', 'ascontiguousarray', 'asfarray'):
            return app('array', I.deep(st, c)) if c.op not in ('app',) else c
        if c.op == 'app' and c.args[0] == 'array':
            return c
        if f in ('copy', 'array') and len(args) == 1 and not set(kw) - {'copy'}:
            return copied(st, I.deep(st, c))
        return app('array', I.deep(st, c), *kwtuple(I, st, {k: x for k, x in kw.items() if k != 'copy'}))
    if f == 'arange':
        if 'step' in kw and len(v) in (1, 2):
            if len(v) == 1:
                v = v + [I.val(st, kw['stop'])] if 'stop' in kw else [ZERO] + v
            v = v + [I.val(st, kw['step'])]
        elif 'stop' in kw and len(v) == 1:
            v = v + [I.val(st, kw['stop'])]
        if len(v) == 1:
            lo, hi, step = ZERO, v[0], ONE
        elif len(v) == 2:
            lo, hi, step = v[0], v[1], ONE
        else:
            lo, hi, step = v[:3]
        i = t.fresh_idx()
        if step is ONE:
            n = t.sub(hi, lo)
        else:
            n = ELEM1['ceil'](t.div(t.sub(hi, lo), step))
        if n.op == 'num' and n.args[0] <= 12:
            return I.alloc(st, mk('vec', *[t.add(lo, t.mul(num(k), step)) for k in range(int(n.args[0]))]))
        return I.alloc(st, t.lam(i, n, t.add(lo, t.mul(i, step))))
    if f == 'linspace' and len(v) >= 2:
        return pure(I, st, 'numpy.linspace', args, kw)
    if f in ('sum', 'mean', 'any', 'all', 'max', 'min', 'amax', 'amin', 'prod', 'nanmin', 'nanmax', 'std', 'median', 'var', 'count_nonzero'):
        return reduce_(I, st, f, arr(I, st, v[0]), args[1:], kw)
    if f in ('argmin', 'argmax', 'argsort', 'ptp', 'unique', 'diff', 'sort', 'flip'):
        c = deep_arr(I, st, arr(I, st, v[0]))
        if f == 'diff' and c.op == 'lam' and not kw and len(args) == 1:
            i = t.fresh_idx()
            return I.alloc(st, t.lam(i, t.sub(c.args[1], ONE), t.sub(t.item(c, t.add(i, ONE)), t.item(c, i))))
        return app(f, c, *([I.deep(st, x) for x in args[1:]] + list(kwtuple(I, st, kw))))
    if f == 'cumsum':
        c = deep_arr(I, st, arr(I, st, v[0]))
        if c.op == 'vec':
            out, acc = [], ZERO
            for x in c.args:
                acc = t.add(acc, x)
                out.append(acc)
            return I.alloc(st, mk('vec', *out))
        if c.op == 'lam' and t.rank(c) == 1:
            k, j = t.fresh_idx(), t.fresh_idx()
            return I.alloc(st, t.lam(k, c.args[1], mksum(j, ZERO, t.add(k, ONE), t.item(c, j))))
        return app('cumsum', c)
    if f == 'clip':
        return W(I.emap(lambda x, a, b: max2(a, min2(b, x)) if False else ite(t.lt(x, a), a, ite(t.lt(b, x), b, x)), *v[:3]))
    if f == 'where' and len(v) == 3:
        return W(I.emap(lambda c, a, b: ite(t.truth(c), a, b), arr(I, st, v[0]), arr(I, st, v[1]), arr(I, st, v[2])))
    if f == 'isclose':
        if len(args) == 2 and not kw:
            return W(I.emap(isclose, arr(I, st, v[0]), arr(I, st, v[1])))
    if f == 'allclose' and len(args) == 2 and not kw:
        return bfold(I.emap(isclose, arr(I, st, v[0]), arr(I, st, v[1])), False)
    if f == 'dot' or f == 'vdot' or f == 'inner':
        return W(dot(I, arr(I, st, v[0]), arr(I, st, v[1])))
    if f == 'cross' and t.rank(arr(I, st, v[0])) == 1:
        a, b = arr(I, st, v[0]), arr(I, st, v[1])
        return t.sub(t.mul(t.item(a, ZERO), t.item(b, ONE)), t.mul(t.item(a, ONE), t.item(b, ZERO)))
    if f == 'linalg.norm':
        c = arr(I, st, v[0])
        ax = kw.get('axis', args[2] if len(args) > 2 else None)
        if ax is None and t.rank(c) == 1:
            return sqrt(asum(I.emap(lambda x: t.mul(x, x), c)))
        if ax is not None and t.rank(c) == 2 and I.val(st, ax).op == 'num' and int(I.val(st, ax).args[0]) in (1, -1) and not kw.get('keepdims'):
            return W(I.axis_map(c, lambda r: sqrt(asum(I.emap(lambda x: t.mul(x, x), r)))))
        return pure(I, st, 'numpy.' + f, args, kw)
    if f in ('stack', 'vstack', 'hstack', 'column_stack', 'concatenate'):
        seq = I.concrete_items(st, v[0])
        ax = kw.get('axis', args[1] if len(args) > 1 else ZERO)
        ax = I.val(st, ax)
        if seq is not None:
            xs = [deep_arr(I, st, to_array(I, st, x)) for x in seq]
            if all(t.rank(x) > 0 for x in xs):
                if f == 'stack' or f == 'vstack' and all(t.rank(x) == 1 for x in xs) or f == 'column_stack':
                    r = mk('vec', *xs)
                    if f == 'column_stack' or f == 'stack' and ax.op == 'num' and int(ax.args[0]) in (1, -1):
                        r = transpose(r)
                    if f != 'stack' or ax.op == 'num':
                        return I.alloc(st, r)
                if f in ('concatenate', 'hstack', 'vstack') and all(x.op == 'vec' for x in xs) and (f != 'hstack' or all(t.rank(x) == 1 for x in xs)) and ax is ZERO:
                    return I.alloc(st, mk('vec', *[y for x in xs for y in x.args]))
            axs = () if f in ('vstack', 'hstack', 'column_stack') else (ax,)
            return app(f, mk('list', *xs), *axs)
        l = I.deep(st, app('aslist', I.listval(st, args[0])))
        if f == 'vstack' and l.args[1].op == 'mapl' and l.args[1].args[2] is TRUE and t.rank(l.args[1].args[3]) == 1:
            m = l.args[1]
            return I.alloc(st, t.lam(m.args[0], m.args[1], m.args[3]))
        return app(f, l.args[1], *([] if f in ('vstack', 'hstack') else [ax]))
    if f == 'fliplr':
        c = deep_arr(I, st, arr(I, st, v[0]))
        if t.rank(c) == 2:
            def rev(r):
                if r.op == 'vec':
                    return mk('vec', *reversed(r.args))
                i = t.fresh_idx()
                n = t.length(r)
                return t.lam(i, n, t.item(r, t.sub(t.sub(n, ONE), i)))
            return I.alloc(st, I.axis_map(c, rev))
        return app('fliplr', c)
    if f == 'transpose':
        return W(transpose(deep_arr(I, st, arr(I, st, v[0]))))
    if f == 'meshgrid' and len(v) == 2 and not set(kw) - {'indexing'}:
        ij = kw.get('indexing', t.s('xy'))
        xs, ys = arr(I, st, v[0]), arr(I, st, v[1])
        if ij.op == 'str' and t.rank(xs) == t.rank(ys) == 1 and xs.op == ys.op == 'lam':
            a, b = (xs, ys) if ij.args[0] == 'ij' else (ys, xs)
            def grid(x, rows):
                i, j = t.fresh_idx(), t.fresh_idx()
                return I.alloc(st, t.lam(i, a.args[1], t.lam(j, b.args[1], t.item(x, i if rows else j))))
            return I.alloc(st, t.lst(grid(xs, a is xs), grid(ys, a is ys)))
    if f == 'asscalar':
        return v[0]
    if f == 'searchsorted':
        return pure(I, st, 'numpy.searchsorted', args, kw)
    if f == 'newaxis':
        return NONE
    if f == 'dtype' and len(args) == 1:
        return pure(I, st, 'numpy.dtype', args, {})
    if f in ('seterr', 'errstate', 'set_printoptions'):
        return NONE
    if f in ('save', 'savetxt', 'savez', 'savez_compressed'):
        return I.event(st, 'numpy.' + f, [I.deep(st, a) for a in args] + list(kwtuple(I, st, kw)))
    if f == 'random.seed':
        return I.event(st, 'numpy.random.seed', [I.deep(st, a) for a in args])
    if f == 'random.shuffle':
        r = app('rand', t.s('shuffle'), I.deep(st, v[0]))
        if args[0].op == 'ref' and I.isarr(v[0]):
            i = t.fresh_idx()
            I.store_ref(st, args[0], t.lam(i, t.length(v[0]), mk('item', r, i)))
        else:
            I.event(st, 'numpy.random.shuffle', [I.deep(st, v[0])])
        return NONE
    if f.startswith('random.'):
        return draw(I, st, f[7:], args, kw)
    return pure(I, st, 'numpy.' + f, args, kw)


def draw(I, st, name, args, kw):
    SIG = {'uniform': ('low', 'high', 'size'), 'random': ('size',), 'randint': ('low', 'high', 'size', 'dtype'), 'normal': ('loc', 'scale', 'size'),
           'exponential': ('scale', 'size'), 'random_sample': ('size',), 'choice': ('a', 'size', 'replace', 'p')}
    sig = SIG.get(name)
    if sig is None:
        return I.rand(st, name, [I.deep(st, a) for a in args] + list(kwtuple(I, st, kw)))
    d = dict(zip(sig, args))
    d.update(kw)
    if name == 'random_sample':
        name = 'random'
    if name == 'random':
        name = 'uniform'
        d.setdefault('low', ZERO)
        d.setdefault('high', ONE)
    if name == 'uniform':
        d.setdefault('low', ZERO)
        d.setdefault('high', ONE)
    if name == 'randint' and ('high' not in d or I.val(st, d['high']) is NONE):
        d['high'] = d['low']
        d['low'] = ZERO
    if name == 'exponential':
        d.setdefault('scale', ONE)
    size = d.pop('size', None)
    d.pop('dtype', None)
    a = [I.deep(st, d[k]) for k in SIG['uniform' if name == 'uniform' else name] if k in d]
    kind = 'int' if name == 'randint' else 'real'
    # a draw from [0, b) + a is a draw from [a, a + b): location-scale normal form
    if name == 'uniform' and t.rank(a[0]) == 0 and t.rank(a[1]) == 0:
        lo, hi = a
        mkr = lambda extra: t.add(lo, t.mul(t.sub(hi, lo), extra))
        base = (ZERO, ONE)
    elif name == 'exponential' and t.rank(a[0]) == 0:
        mkr = lambda extra: t.mul(a[0], extra)
        base = (ONE,)
    else:
        mkr, base = (lambda x: x), tuple(a)
    r = I.rand(st, name, base, kind)
    if size is None or I.val(st, size) is NONE:
        return mkr(r)
    ds = dims(I, st, size)
    def build(k, ix):
        if k == len(ds):
            return mkr(mk('el', kind, r.args[1], *ix))
        i = t.fresh_idx()
        if ds[k].op == 'num' and ds[k].args[0] <= 16:
            return mk('vec', *[build(k + 1, ix + (num(j),)) for j in range(int(ds[k].args[0]))])
        return t.lam(i, ds[k], build(k + 1, ix + (i,)))
    return I.alloc(st, build(0, ()))


def deep_arr(I, st, c):
    return I.deep(st, c)


def reduce_(I, st, f, c, args, kw):
    ax = kw.get('axis', args[0] if args else None)
    ax = None if ax is None else I.val(st, ax)
    if ax is NONE:
        ax = None
    c = deep_arr(I, st, c)
    r = t.rank(c)
    if f == 'max':
        f = 'amax'
    if f == 'min':
        f = 'amin'
    if r == 0:
        if c.op == 'ite':
            pass
        return app(f, c, *([ax] if ax is not None else []))
    if ax is not None and (ax.op != 'num'):
        return app(f, c, ax)
    if ax is not None:
        k = int(ax.args[0])
        if k < 0:
            k += r
        if r == 1:
            ax = None
        elif k == 1 and r == 2:
            return I.wrap(st, I.axis_map(c, lambda x: reduce_(I, st, f, x, [], {})))
        elif k == 0 and r == 2:
            return I.wrap(st, I.axis_map(transpose(c), lambda x: reduce_(I, st, f, x, [], {})))
        else:
            return app(f, c, ax)
    if f == 'sum':
        return full_sum(c)
    if f == 'count_nonzero':
        return full_sum(I.emap(lambda x: ite(t.truth(x), ONE, ZERO), c))
    if f == 'mean':
        n = t.mul(*shape_of(c))
        return t.div(full_sum(c), n)
    if f == 'any':
        return bfold(c, True)
    if f == 'all':
        return bfold(c, False)
    if f in ('amax', 'amin') and c.op == 'vec' and t.rank(c) == 1 and 0 < len(c.args) <= 6:
        acc = c.args[0]
        for x in c.args[1:]:
            acc = (max2 if f == 'amax' else min2)(acc, x)
        return acc
    if f in ('amax', 'amin') and c.op == 'ite':
        return ite(c.args[0], reduce_(I, st, f, c.args[1], [], {}), reduce_(I, st, f, c.args[2], [], {}))
    if f in ('amax', 'amin') and c.op == 'lam' and c.args[2].op == 'add':
        # the greatest of shifted values is the shifted greatest
        i = c.args[0]
        out = [x for x in c.args[2].args if not t.occurs(i, x)]
        if out and len(out) < len(c.args[2].args):
            return t.add(app(f, t.lam(i, c.args[1], t.add(*[x for x in c.args[2].args if t.occurs(i, x)]))), *out)
    return app(f, c)


def seq_sum(I, st, v, start=ZERO):
    l = I.listval(st, v)
    return t.add(start, _lsum(l))


def _lsum(l):
    if l.op == 'list':
        return t.add(*l.args) if l.args else ZERO
    if l.op == 'mapl':
        i, n, c, e = l.args
        if t.is_boolish(e):
            e = ite(e, ONE, ZERO)
        return mksum(i, ZERO, n, ite(c, e, ZERO))
    if l.op == 'cat':
        return t.add(*[_lsum(x) for x in l.args])
    if l.op == 'mapflat':
        return mksum(l.args[0], ZERO, l.args[1], _lsum(l.args[2]))
    if l.op == 'lcat':
        return t.add(_lsum(l.args[0]), _lsum(l.args[1]))
    if l.op == 'ite':
        return ite(l.args[0], _lsum(l.args[1]), _lsum(l.args[2]))
    return app('lsum', l)


def _lany(I, l, any_):
    if l.op == 'list':
        return (t.or_ if any_ else t.and_)(*[t.truth(x) for x in l.args])
    if l.op == 'mapl':
        i, n, c, e = l.args
        e = t.truth(e)
        return mkexists(i, ZERO, n, t.and_(c, e)) if any_ else mkforall(i, ZERO, n, t.or_(t.not_(c), e))
    if l.op == 'mapflat':
        f = _lany(I, l.args[2], any_)
        return mkexists(l.args[0], ZERO, l.args[1], f) if any_ else mkforall(l.args[0], ZERO, l.args[1], f)
    if l.op in ('cat', 'lcat'):
        return (t.or_ if any_ else t.and_)(*[_lany(I, x, any_) for x in l.args])
    if l.op == 'ite':
        return ite(l.args[0], _lany(I, l.args[1], any_), _lany(I, l.args[2], any_))
    return t.truth(app('any' if any_ else 'all', l))


# --------------------------------------------------------------------- calls

def clsnames(I, st, v):
    v = I.val(st, v)
    if v.op in ('tup', 'list'):
        r = []
        for x in v.args:
            r += clsnames(I, st, x)
        return r
    if v.op == 'pyv':
        o = v.args[0].obj
        if isinstance(o, tuple):
            return [o[1].split('.')[-1]]
        if hasattr(o, 'name'):
            return [o.name]
    if v.op == 'ext':
        return [v.args[0].split('.')[-1]]
    return None


BUILTIN_KINDS = {'tup': ('tuple', 'Iterable', 'Sequence', 'Sized', 'Collection'), 'list': ('list', 'Iterable', 'Sequence', 'Sized', 'Collection', 'MutableSequence'),
                 'dict': ('dict', 'Mapping', 'Iterable', 'Collection', 'MutableMapping', 'Sized'), 'str': ('str', 'Iterable', 'Sequence', 'Sized', 'Collection'), 'strcat': ('str', 'Iterable', 'Sequence', 'Sized', 'Collection'),
                 'none': ('NoneType',), 'bool': ('bool', 'int', 'Number', 'Integral')}


def isinstance_(I, st, a, c):
    names = clsnames(I, st, c)
    x = I.val(st, a)
    if x.op == 'ite':
        return ite(x.args[0], isinstance_(I, st, x.args[1], c), isinstance_(I, st, x.args[2], c))
    if names is None:
        return mk('isinst', I.deep(st, x), t.s('?'), I.deep(st, c))
    if x.op in BUILTIN_KINDS:
        return t.boolean(any(n in BUILTIN_KINDS[x.op] for n in names))
    if I.isarr(x):
        return t.boolean(any(n in ('ndarray', 'Iterable', 'Sized') for n in names))
    if x.op == 'numbatype':
        return t.boolean(any(n == x.args[0] or (n == 'Array' and x.args[0] == 'Array') for n in names))
    if x.op == 'num':
        if x.args[0].denominator != 1:
            return t.boolean(any(n in ('float', 'Number', 'Real') for n in names))
    k = I.user_class(x)
    if k is not None:
        mro = [getattr(b, 'name', b if isinstance(b, str) else '').split('.')[-1] for b in I.proj.mro(k)]
        if any(n in mro for n in names):
            return TRUE
    d = I.deep(st, x)
    return t.or_(*[mk('isinst', d, t.s(n)) for n in names])


def fmt(I, st, tmpl, args, kw):
    """str.format on a template whose literal parts are known"""
    parts = tmpl.args if tmpl.op == 'strcat' else (tmpl,)
    from .interp import strcat
    out = []
    auto = 0
    for p in parts:
        if p.op != 'str':
            if p.op == 'app' and p.args[0] == 'os.path.join':
                out.append(app('os.path.join', *[fmt(I, st, x, args, kw) for x in p.args[1:]]))
            else:
                out.append(p)
            continue
        for lit, field, spec, conv in string.Formatter().parse(p.args[0]):
            if lit:
                out.append(t.s(lit))
            if field is None:
                continue
            if field == '':
                field = str(auto)
                auto += 1
            import _string
            first, rest = _string.formatter_field_name_split(field)
            if isinstance(first, int):
                v = args[first] if first < len(args) else mk('missing', str(first))
            else:
                v = kw.get(first)
                if v is None:
                    v = t.item(kw['**'], t.s(first)) if '**' in kw else mk('missing', first)
            for isattr, nm in rest:
                v = I.getattr(st, v, nm) if isattr else I.getitem(st, v, num(nm) if isinstance(nm, int) else t.s(nm))
            out.append(I.tostr(st, v, spec or ''))
    return strcat(*out)


def is_logger(v):
    while v.op in ('attr', 'app') and isinstance(v.args[0], T) or v.op == 'attr':
        if v.op == 'attr' and 'logger' in str(v.args[1]).lower():
            return True
        v = v.args[0]
    if v.op == 'gconst':
        return 'logger' in v.args[0].lower()
    if v.op == 'app' and v.args[0] in ('logging.getLogger', 'getLogger'):
        return True
    return False


def copied(st, d):
    """a copy shows what was sent as it is then: the sender may have changed it when it was asked for more since"""
    if d.op == 'app' and d.args[0] == 'res' and d.args[1] is t.s('yield'):
        since = None
        for e in st.tr:
            if e.op == 'ev' and e.args[-1].op == 'tag' and e.args[-1].args[0] is d:
                since = 0
            elif since is not None and any(u.op == 'ev' and u.args[0] == 'yield' for u in t.subterms(e)):
                since += 1
        if since:
            return app('npcopy', d, num(since))
    return app('npcopy', d)


def bind_new(I, v, name, args, kw):
    """arguments of a method of a fresh object, by name: f(a) and f(x=a) agree"""
    cs = [c for m in I.proj.modules.values() for k, c in m.names.values() if k == 'class' and c.mod is m and c.name == v.args[1].args[0]]
    if len(cs) != 1 or '**' in kw or any(x.op == 'star' for x in args):
        return args, kw
    m = I.proj.find_method(cs[0], name)
    if m is None or m.node.args.vararg or m.node.decorator_list:
        return args, kw
    names = [x.arg for x in m.node.args.posonlyargs + m.node.args.args][1:]
    if len(args) > len(names) or set(names[:len(args)]) & set(kw):
        return args, kw
    return [], {**dict(zip(names, args)), **kw}


def method_call(I, st, obj, name, args, kw, fr):
    from .interp import listcat, listapp, strcat, is_str, GenVal, PURE_METHODS, Meth
    if obj.op == 'ite':
        c = obj.args[0]
        from .interp import merge
        s1, s2 = st.copy(), st.copy()
        x = I.call(s1, I.getattr(s1, obj.args[1], name), args, kw, fr)
        y = I.call(s2, I.getattr(s2, obj.args[2], name), args, kw, fr)
        st.become(merge(c, s1, s2))
        return ite(c, x, y)
    if is_logger(obj) and name not in ('setLevel', 'addHandler', 'removeHandler'):
        return NONE
    if obj.op == 'super' and name == '__init__':
        I.base_inited(st, obj.args[0])
    v = I.val(st, obj)
    A = [I.val(st, a) for a in args]
    # strings
    if is_str(v):
        if name == 'format':
            if v.op == 'app' and v.args[0] == 'os.path.join':
                return app('os.path.join', *[fmt(I, st, x, args, kw) for x in v.args[1:]])
            return fmt(I, st, v, args, kw)
        if name == 'join' and v.op == 'str':
            items = I.concrete_items(st, A[0])
            if items is not None:
                ps = []
                for k, x in enumerate(items):
                    if k:
                        ps.append(v)
                    ps.append(I.tostr(st, x))
                return strcat(*ps)
            return app('str.join', v, I.listval(st, args[0]))
        if v.op == 'str' and all(t.is_const(a) for a in A) and name in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith', 'title', 'capitalize'):
            r = getattr(v.args[0], name)(*[t.const_val(a) for a in A])
            return t.boolean(r) if isinstance(r, bool) else t.s(r)
        if name == 'encode':
            return v
    # lists
    if v.op in ('list', 'mapl', 'lcat', 'cat', 'mapflat') or (v.op == 'cv' and v.args[1] == 'list') or \
            (v.op == 'ite' and obj.op == 'ref' and name in ('append', 'extend')):
        if obj.op == 'ref':
            def putl(new):
                key = obj.args[0]
                st.m[key] = I.write_pure(I.rd(st, key), obj.args[1:], new)
            if name == 'append':
                x = I.compval(st, args[0])
                a = args[0]
                if a.op == 'ref' and len(a.args) == 1 and I.alloc_at.get(a.args[0], 99) < len(I.loopidx) and \
                        any(k[0] == 'attr' and w is obj for k, w in st.m.items()):
                    # every round keeps the same object
                    x = app('shared', x)
                putl(listapp(v, x))
                return NONE
            if name == 'extend':
                putl(listcat(v, I.listval(st, args[0])))
                return NONE
            if name == 'clear':
                putl(t.lst())
                return NONE
            if name == 'insert' and A[0] is ZERO:
                putl(listcat(t.lst(I.compval(st, args[1])), v))
                return NONE
            if name == 'pop' and v.op == 'list' and v.args and (not A or A[0].op == 'num'):
                k = int(A[0].args[0]) if A else -1
                xs = list(v.args)
                r = xs.pop(k)
                putl(t.lst(*xs))
                return r
            if name in ('remove', 'insert', 'pop', 'sort', 'reverse'):
                putl(app('list.' + name, I.deep(st, v), *[I.deep(st, a) for a in args]))
                return app('list.' + name + '.res', I.deep(st, v), *[I.deep(st, a) for a in args])
        if name == 'copy':
            return I.alloc(st, v)
        if name in ('index', 'count'):
            return app('list.' + name, I.deep(st, v), *[I.deep(st, a) for a in args])
    if v.op == 'dict':
        if name in ('items', 'keys', 'values'):
            if name == 'keys':
                return t.lst(*[k for k, _ in v.args])
            if name == 'values':
                return t.lst(*[x for _, x in v.args])
            return t.lst(*[tup(k, x) for k, x in v.args])
        if name == 'get':
            k = I.deep(st, args[0])
            dflt = args[1] if len(args) > 1 else NONE
            if all(t.is_const(kk) for kk, _ in v.args):
                r = dflt
                for kk, x in v.args:
                    r = ite(t.eq(k, kk), x, r)
                return r
            return app('dict.get', I.deep(st, v), k, I.deep(st, dflt))
        if name in ('update', 'setdefault') and obj.op == 'ref':
            if name == 'update':
                new = list(v.args)
                for a in A:
                    if a.op == 'dict':
                        for kk, x in a.args:
                            new = [p for p in new if p[0] is not kk] + [(kk, x)]
                    else:
                        new.append((mk('starstar'), I.deep(st, a)))
                for kk, x in kw.items():
                    new = [p for p in new if p[0] is not t.s(kk)] + [(t.s(kk), x)]
                st.m[obj.args[0]] = mk('dict', *new)
                return NONE
            k = I.deep(st, args[0])
            for kk, x in v.args:
                if kk is k:
                    return x
            if t.is_const(k) and all(t.is_const(kk) for kk, _ in v.args):
                st.m[obj.args[0]] = mk('dict', *(v.args + ((k, args[1]),)))
                return args[1]
        if name == 'copy':
            return I.alloc(st, v)
        if name == 'pop' and obj.op == 'ref' and t.is_const(A[0]):
            r = None
            for kk, x in v.args:
                if kk is A[0]:
                    r = x
            st.m[obj.args[0]] = mk('dict', *[p for p in v.args if p[0] is not A[0]])
            if r is not None:
                return r
            return args[1] if len(args) > 1 else mk('missing', t.show(A[0]))
    if name == 'update' and obj.op == 'ref' and len(args) == 1 and not kw and (v.op == 'cv' and v.args[1] == 'dict' or v.op == 'store' or isdict(v)) and isdict(A[0]):
        new = entries(I.deep(st, A[0]))
        key = obj.args[0]
        st.m[key] = I.write_pure(I.rd(st, key), obj.args[1:], mkdict(listcat(entries(v), new)) if isdict(v) else app('dict.update', v, new))
        return NONE
    # arrays
    if t.rank(v) > 0:
        if name == 'copy':
            return I.alloc(st, I.deep(st, v))
        if name == 'astype':
            dc = dtype_class(I, st, args[0])
            f = {'i': trunc, 'b': t.truth}.get(dc, lambda x: x)
            return I.alloc(st, I.emap(f, I.deep(st, v)))
        if name in ('sum', 'mean', 'any', 'all', 'max', 'min', 'argmin', 'argmax', 'argsort', 'cumsum', 'dot', 'ptp', 'std', 'clip', 'transpose', 'prod'):
            return numpy_call(I, st, name, [obj] + args, kw, fr)
        if name in ('flatten', 'ravel'):
            return I.wrap(st, flatten(I.deep(st, v)))
        if name == 'tolist':
            return I.alloc(st, I.listval(st, v))
        if name == 'item' and not args:
            return t.item(v, ZERO) if t.rank(v) == 1 else app('item', v)
        if name == 'fill' and obj.op == 'ref':
            I.store_ref(st, obj, A[0])
            return NONE
        return app('m.' + name, I.deep(st, v), *([I.deep(st, a) for a in args] + list(kwtuple(I, st, kw))))
    if v.op in ('num', 'el') and name in ('item', 'copy', 'astype'):
        if name == 'astype':
            dc = dtype_class(I, st, args[0])
            return trunc(v) if dc == 'i' else t.truth(v) if dc == 'b' else v
        return v
    if name == 'astype' and A and v.op == 'app' and v.args[0] in ('array', 'npcopy', 'argsort', 'cumsum'):
        dc = dtype_class(I, st, args[0])
        if dc in ('i', 'b'):
            return app('astype:' + dc, v)
        if dc == 'f':
            return v
    if name == 'from_iterable' and v.op == 'pyv':
        from .interp import Iter
        return pyv(Iter('chain_nested', args[0]))
    if name in ('cache_clear', 'cache_info') and v.op == 'pyv':
        # a cache belongs to the function it was made for
        q = getattr(v.args[0].obj, 'qual', None) or getattr(getattr(v.args[0].obj, 'func', None), 'qual', None)
        if q:
            return I.event(st, 'm.' + name, [mk('fnref', q)])
    # user classes reached through symbolic values
    m = I.user_method(v, name)
    if m:
        return I.call(st, m, args, kw, fr)
    d = I.deep(st, v)
    if v.op == 'app' and v.args[0] == 'new':
        args, kw = bind_new(I, v, name, args, kw)
    da = [I.deep(st, a) for a in args]
    dk = list(kwtuple(I, st, kw))
    if name == 'format':
        return app('str', fmt(I, st, d, args, kw)) if d.op in ('str', 'strcat') else app('m.format', d, *(da + dk))
    if name in ('items', 'keys', 'values') and not args:
        if d.op == 'attr' and d.args[1] == 'parameters' and d.args[0].op == 'app' and d.args[0].args[0] == 'inspect.signature' and name != 'values':
            # parameters are filed under their names
            ps = app('m.values', d)
            i = t.fresh_idx()
            p = t.item(ps, i)
            nm = I.getattr(st, p, 'name')
            return mk('mapl', i, app('len', ps), TRUE, nm if name == 'keys' else tup(nm, p))
        if d.op == 'attr' and d.args[1] == 'parameters':
            return app('m.' + name, d)
        # going through a mapping goes through its keys
        if name == 'keys':
            return d
        i = t.fresh_idx()
        k = t.item(d, i)
        return mk('mapl', i, app('len', d), TRUE, t.item(d, k) if name == 'values' else tup(k, t.item(d, k)))
    if name == 'contains_points' and len(da) == 1 and not dk:
        i = t.fresh_idx()
        return I.alloc(st, t.lam(i, length(I, st, da[0]), mk('el', 'bool', app('m.contains_points', d, da[0]), i)))
    if name in ('sum', 'mean', 'any', 'all', 'max', 'min', 'argmin', 'argmax', 'argsort', 'cumsum', 'ptp', 'std') and not is_str(v):
        nm = {'max': 'amax', 'min': 'amin'}.get(name, name)
        return app(nm, d, *(da + [x.args[1] for x in dk if x.args[0] is t.s('axis')] + [x for x in dk if x.args[0] is not t.s('axis')]))
    if name == 'copy' and not args:
        return copied(st, d)
    if name == 'extend' and len(args) == 1 and not kw:
        # one append after the other
        def one(s, e):
            I.event(s, 'm.append', [d, I.deep(s, e)])
            return s, []
        nr, ex = I.loop_over(args[0], one, st, fr)
        if nr is not None and all(e.kind == 'raise' for e in ex):
            st.become(nr)
            st.raised += [(e.cond, e.st, e.val) for e in ex]
            return NONE
    if name in PURE_METHODS:
        return app('m.' + name, d, *(da + dk))
    return I.event(st, 'm.' + name, [d] + da + dk)


def flatten(c):
    if t.rank(c) <= 1:
        return c
    sh = shape_of(c)
    if all(x.op == 'num' for x in sh):
        out = []
        def go(x):
            if t.rank(x) == 0:
                out.append(x)
            else:
                for y in (x.args if x.op == 'vec' else ()):
                    go(y)
        go(c)
        return mk('vec', *out)
    return app('flatten', c)


class KW(dict):
    """keyword arguments that know which of them were looked at"""
    def __init__(self, d):
        dict.__init__(self, d)
        self.seen = set()

    def __getitem__(self, k):
        self.seen.add(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self.seen.add(k)
        return dict.get(self, k, d)

    def pop(self, k, *d):
        self.seen.add(k)
        return dict.pop(self, k, *d)

    def __iter__(self):
        self.seen |= set(dict.keys(self))
        return dict.__iter__(self)

    def keys(self):
        self.seen |= set(dict.keys(self))
        return dict.keys(self)

    def items(self):
        self.seen |= set(dict.keys(self))
        return dict.items(self)

    def missed(self):
        return [k for k in dict.keys(self) if k not in self.seen]


# keywords that do not change what is computed here
SILENT_KW = {'copy', 'order', 'subok', 'like'}


def ext_call(I, st, path, args, kw, fr):
    """models of calls outside the project; a keyword no model looks at makes the call opaque"""
    if not kw:
        return ext_model(I, st, path, args, kw, fr)
    w = KW(kw)
    s2 = st.copy()
    s2.raised = list(st.raised)
    r = ext_model(I, s2, path, args, w, fr)
    if set(w.missed()) - SILENT_KW and r is not NONE:
        return pure(I, st, path, args, kw)
    st.become(s2)
    st.raised = s2.raised
    return r


def os_path(f, ps):
    """paths up to normalization: parts that are joined on are relative"""
    def isapp(v, h):
        return v.op == 'app' and v.args[0] == 'os.path.' + h
    p = ps[0]
    if f == 'join':
        if isapp(p, 'join'):
            ps = list(p.args[1:]) + ps[1:]
        if len(ps) == 1:
            return ps[0]
    elif f in ('abspath', 'normpath') and len(ps) == 1:
        if isapp(p, 'abspath'):
            return p
        if isapp(p, 'normpath'):
            return os_path(f, [p.args[1]])
        if isapp(p, 'join'):
            return os_path('join', [os_path(f, [p.args[1]])] + list(p.args[2:]))
    elif f == 'split' and len(ps) == 1:
        return tup(os_path('dirname', ps), os_path('basename', ps))
    elif f == 'basename' and isapp(p, 'join'):
        return os_path(f, [p.args[-1]])
    elif f == 'splitext' and len(ps) == 1:
        ext = p.args[-1] if isapp(p, 'join') else p
        while isapp(ext, 'basename'):
            ext = ext.args[1]
        stem = os_path('basename', [app('os.path.stem', p.args[1])]) if isapp(p, 'basename') else app('os.path.stem', p)
        return tup(stem, app('os.path.ext', ext))
    return app('os.path.' + f, *ps)


def ext_model(I, st, path, args, kw, fr):
    from .interp import Iter, GenVal, Partial, Closure, IMPURE_EXT, pyv_ext, listcat, Unsupported, NamedT
    from .project import ClassDef, FuncDef
    if path.startswith('numpy.'):
        return numpy_call(I, st, path[6:], args, kw, fr)
    last = path.split('.')[-1]
    A = [I.val(st, a) for a in args]
    if path.startswith('math.') and (last in ELEM1 or last in ELEM2):
        return numpy_call(I, st, last, args, kw, fr)
    if path in ('scipy.stats.truncnorm.rvs',) or last == 'rvs':
        sig = ('a', 'b', 'loc', 'scale', 'size', 'random_state')
        d = dict(zip(sig, args))
        d.update(kw)
        size = d.pop('size', None)
        base = tuple(tup(t.s(k), I.deep(st, d[k])) for k in sorted(d))
        r = I.rand(st, path, base)
        if size is None or I.val(st, size) is NONE:
            return r
        ds = dims(I, st, size)
        i = t.fresh_idx()
        if ds[0].op == 'num':
            return I.alloc(st, mk('vec', *[mk('el', 'real', r.args[1], num(j)) for j in range(int(ds[0].args[0]))]))
        return I.alloc(st, t.lam(i, ds[0], mk('el', 'real', r.args[1], i)))
    if path == 'cell_lists.iter_nearest_neighbors':
        # pairs of positions in the list of points
        pairs = app(path, *[I.deep(st, a) for a in args])
        i = t.fresh_idx()
        return mk('mapl', i, app('len', pairs), TRUE, tup(mk('el', 'int', pairs, i, ZERO), mk('el', 'int', pairs, i, ONE)))
    if path.startswith('os.path.') and args and not kw:
        return os_path(last, [I.deep(st, a) for a in args])
    if path.startswith('random.'):
        return I.rand(st, path, [I.deep(st, a) for a in args])
    if path.startswith('logging.') or path.startswith('loggingtools.') or 'logger' in path:
        if path == 'logging.getLogger':
            return app('logging.getLogger', *[I.deep(st, a) for a in args])
        if path != 'loggingtools.setup_logging':
            return NONE
    if path == 'range':
        if len(A) == 1:
            return pyv(Iter('range', ZERO, A[0], ONE))
        if len(A) == 2:
            return pyv(Iter('range', A[0], A[1], ONE))
        return pyv(Iter('range', A[0], A[1], A[2]))
    if path == 'enumerate':
        return pyv(Iter('enumerate', args[0], A[1] if len(A) > 1 else I.val(st, kw.get('start', ZERO))))
    if path in ('zip', 'itertools.zip'):
        return pyv(Iter('zip', *args))
    if path == 'reversed':
        return pyv(Iter('reversed', args[0]))
    if path == 'map':
        if len(args) == 2:
            key = ('v', I.newfid(), '__map')
            return pyv(GenVal(collect(I, st, args[1], lambda s, e: I.compval(s, I.call(s, args[0], [e], {})))))
        z = pyv(Iter('zip', *args[1:]))
        return pyv(GenVal(collect(I, st, z, lambda s, e: I.compval(s, I.call(s, args[0], list(e.args), {})))))
    if path == 'filter':
        return pyv(Iter('filter', args[0], args[1]))
    if path == 'itertools.product':
        rep = I.val(st, kw.get('repeat', ONE))
        if rep.op == 'num':
            return pyv(Iter('product', *(list(args) * int(rep.args[0]))))
        return app('product', *([I.deep(st, I.listval(st, a)) for a in args] + [rep]))
    if path == 'itertools.chain':
        return pyv(Iter('chain', *args))
    if path == 'itertools.chain.from_iterable':
        return pyv(Iter('chain_nested', args[0]))
    if path == 'itertools.count':
        return pyv(Iter('count', A[0] if A else ZERO))
    if path == 'itertools.repeat' and len(args) == 2:
        i = t.fresh_idx()
        return mk('mapl', i, A[1], TRUE, I.deep(st, args[0]))
    if path == 'itertools.combinations' and len(A) == 2:
        return app('combinations', I.listval(st, args[0]), A[1])
    if path == 'functools.partial':
        return pyv(Partial(args[0], args[1:], kw))
    if path == 'functools.reduce':
        key = ('v', I.newfid(), '__red')
        items = I.concrete_items(st, A[1])
        if len(args) > 2:
            st.m[key] = args[2]
            src = args[1]
        elif items:
            st.m[key] = items[0]
            src = t.lst(*items[1:])
        else:
            l = I.deep(st, I.listval(st, args[1]))
            st.m[key] = t.item(l, ZERO)
            src = None

        def rb(s, e):
            s.m[key] = I.call(s, args[0], [s.m[key], e], {})
            return s, []
        if src is None:
            nr, ex = I.loop_core(ONE, length(I, st, l), lambda s, i: t.item(l, i), rb, st, fr)
        else:
            nr, ex = I.loop_over(src, rb, st, fr)
        if nr is None:
            raise Unsupported('reduce')
        r = nr.m.pop(key)
        st.become(nr)
        st.raised += [(e.cond, e.st, e.val) for e in ex if e.kind == 'raise']
        return r
    if path == 'functools.wraps' or path == 'functools.lru_cache':
        return pyv_ext('builtins.identity')
    if path == 'builtins.identity':
        return args[0]
    if path == 'len':
        return length(I, st, args[0])
    if path == 'sum':
        return seq_sum(I, st, args[0], A[1] if len(A) > 1 else ZERO)
    if path in ('any', 'all'):
        if t.rank(A[0]) > 0:
            return bfold(A[0], path == 'any')
        return _lany(I, I.listval(st, args[0]), path == 'any')
    if path in ('max', 'min'):
        if len(args) >= 2 and not kw:
            acc = A[0]
            for x in A[1:]:
                acc = (max2 if path == 'max' else min2)(acc, x)
            return acc
        if len(args) == 1:
            x = A[0]
            if t.rank(x) == 1 and not kw:
                return reduce_(I, st, path, x, [], {})
            l = I.listval(st, args[0])
            if l.op == 'list' and l.args and not kw:
                acc = l.args[0]
                for y in l.args[1:]:
                    acc = (max2 if path == 'max' else min2)(acc, y)
                return acc
            if l.op == 'mapl' and l.args[2] is TRUE and not kw:
                return app('amax' if path == 'max' else 'amin', t.lam(l.args[0], l.args[1], l.args[3]))
            return app('a' + path, l, *kwtuple(I, st, kw))
    if path == 'abs':
        return I.wrap(st, I.emap(abs_, A[0]))
    if path == 'pow' and len(A) == 2:
        return I.wrap(st, I.emap(t.power, A[0], A[1]))
    if path == 'round' and len(A) == 1:
        return app('round', A[0])
    if path == 'divmod':
        return tup(t.floordiv(A[0], A[1]), t.mod(A[0], A[1]))
    if path == 'isinstance':
        return isinstance_(I, st, args[0], args[1])
    if path == 'issubclass':
        a, b = clsnames(I, st, args[0]), clsnames(I, st, args[1])
        if A[0].op == 'pyv' and isinstance(A[0].args[0].obj, ClassDef) and b:
            mro = [getattr(k, 'name', k if isinstance(k, str) else '').split('.')[-1] for k in I.proj.mro(A[0].args[0].obj)]
            return t.boolean(any(x in mro for x in b))
        return mk('isinst', app('class', I.deep(st, A[0])), t.s('|'.join(sorted(b)) if b else t.show(I.deep(st, A[1]))))
    if path == 'callable':
        if A[0].op == 'pyv':
            return TRUE
        if A[0].op in ('num', 'str', 'none', 'bool', 'list', 'tup'):
            return FALSE
        return mk('callable', I.deep(st, A[0]))
    if path == 'hasattr':
        if A[1].op == 'str' and I.user_class(A[0]) is not None:
            k = I.user_class(A[0])
            if I.proj.find_method(k, A[1].args[0]) or I.proj.find_attr(k, A[1].args[0]):
                return TRUE
            if I.fresh and A[1].args[0] not in I.proj.known_names():
                return t.boolean(('attr', I.deep_obj(st, args[0]), A[1].args[0]) in st.m)
        return t.truth(app('hasattr', I.deep(st, A[0]), A[1]))
    if path == 'getattr':
        if A[1].op == 'str' and len(args) == 2:
            return I.getattr(st, args[0], A[1].args[0])
        if A[1].op == 'str' and A[0].op in ('pyv',):
            return I.getattr(st, args[0], A[1].args[0])
        if A[1].op == 'str' and len(args) == 3 and I.user_class(A[0]) is not None:
            k, nm = I.user_class(A[0]), A[1].args[0]
            if I.proj.find_method(k, nm) or I.proj.find_attr(k, nm):
                return I.getattr(st, args[0], nm)
            if I.fresh and nm not in I.proj.known_names():
                # nobody but the code at hand can have set it
                key = ('attr', I.deep_obj(st, args[0]), nm)
                if key not in st.m:
                    I.setattr(st, args[0], nm, args[2])
                return I.getattr(st, args[0], nm)
        return app('getattr', *[I.deep(st, a) for a in args])
    if path == 'setattr':
        if A[1].op == 'str':
            I.setattr(st, args[0], A[1].args[0], args[2])
            return NONE
        return I.event(st, 'setattr', [I.deep(st, a) for a in args])
    if path == 'sorted':
        return app('sorted', I.deep(st, I.listval(st, args[0])), *kwtuple(I, st, kw))
    if path == 'list':
        if not args:
            return I.alloc(st, t.lst())
        return I.alloc(st, I.listval(st, args[0]))
    if path == 'tuple':
        if not args:
            return tup()
        items = I.concrete_items(st, A[0])
        if items is not None:
            return tup(*items)
        return app('tuple', I.listval(st, args[0]))
    if path in ('dict', 'collections.OrderedDict'):
        if not args:
            return I.alloc(st, mk('dict', *[(t.s(k), v) for k, v in kw.items()]))
        if A[0].op == 'dict' and '**' not in kw:
            return I.alloc(st, mk('dict', *(tuple(A[0].args) + tuple((t.s(k), v) for k, v in kw.items()))))
        l = I.listval(st, args[0]) if A[0].op in ('list', 'mapl', 'pyv', 'tup') else None
        if l is not None and l.op == 'list' and all(x.op == 'tup' and len(x.args) == 2 for x in l.args):
            return I.alloc(st, mk('dict', *(tuple((x.args[0], x.args[1]) for x in l.args) + tuple((t.s(k), v) for k, v in kw.items()))))
        if l is not None and not kw:
            from .loops import mkdict
            return I.alloc(st, mkdict(I.deep(st, l)))
        return app('dict', l if l is not None else I.deep(st, A[0]), *kwtuple(I, st, kw))
    if path in ('set', 'frozenset'):
        return app('set', *([I.deep(st, I.listval(st, args[0]))] if args else []))
    if path == 'str':
        return I.tostr(st, args[0]) if args else t.s('')
    if path == 'repr':
        return app('repr', I.deep(st, args[0]))
    if path == 'int':
        if not args:
            return ZERO
        if A[0].op == 'str':
            try:
                return num(int(A[0].args[0]))
            except ValueError:
                return app('trunc', A[0])
        return trunc(A[0])
    if path == 'float':
        if A[0].op == 'str':
            try:
                return num(float(A[0].args[0]))
            except ValueError:
                return app('float', A[0])
        return A[0] if not t.is_boolish(A[0]) else ite(A[0], ONE, ZERO)
    if path == 'bool':
        return I.truth(st, A[0])
    if path == 'hash':
        return app('hash', I.deep(st, A[0]))
    if path == 'type' and len(args) == 1:
        return I.getattr(st, args[0], '__class__') if A[0].op != 'pyv' else app('type', I.deep(st, A[0]))
    if path == 'iter':
        return args[0]
    if path == 'print':
        return NONE
    if path == 'id':
        return app('id', I.deep(st, A[0]))
    if path == 'slice':
        d = list(A) + [NONE] * 3
        if len(A) == 1:
            return mk('slice', NONE, A[0], NONE)
        return mk('slice', d[0], d[1], d[2])
    if path == 'locals' and fr is not None:
        return app('locals')
    if path == 'object':
        return I.event(st, 'object', [])
    if path in ('copy.copy', 'copy.deepcopy'):
        if I.isarr(A[0]) or A[0].op in ('list', 'dict'):
            return I.alloc(st, I.deep(st, A[0]))
        return copied(st, I.deep(st, A[0]))
    if path.startswith('operator.'):
        OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'or_': 'BitOr', 'and_': 'BitAnd'}
        if last in OPS and len(args) == 2:
            return I.wrap(st, I.binop(OPS[last], args[0], args[1], st))
        if last in ('itemgetter', 'attrgetter'):
            return app(path, *[I.deep(st, a) for a in args])
    if path == 'open' and len(args) == 2 and A[1].op == 'str' and A[1].args[0] in ('r', 'rt') and not kw:
        args = args[:1]
    if path == 'next' and len(args) == 1 and not kw and A[0].op in ('app', 'sym', 'attr', 'item', 'res'):
        # the next value of a generator is what it answers to None
        return method_call(I, st, args[0], 'send', [NONE], {}, fr)
    if path in IMPURE_EXT or last in ('secho', 'echo') or path.startswith('shutil.') or path.startswith('subprocess.'):
        return I.event(st, path, [I.deep(st, a) for a in args] + list(kwtuple(I, st, kw)))
    if path == 'collections.namedtuple':
        return app('namedtuple', *[I.deep(st, a) for a in args])
    return pure(I, st, path, args, kw)


def collect(I, st, it, f):
    """list of f(element)"""
    from .interp import listapp, Unsupported
    key = ('v', I.newfid(), '__col')
    st.m[key] = t.lst()

    def body(s, e):
        s.m[key] = listapp(s.m[key], f(s, e))
        return s, []
    nr, ex = I.loop_over(it, body, st, None)
    if nr is None:
        raise Unsupported('map over an unbounded iterator')
    r = nr.m.pop(key)
    st.become(nr)
    for e in ex:
        if e.kind == 'raise':
            st.raised.append((e.cond, e.st, e.val))
    return r
