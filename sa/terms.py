"""Hash-consed value terms with light algebraic normalisation.

A term is the *static* description of the value a program point computes, as a
function of the inputs of the analysed function (a node of the gated value
graph).  Nothing here runs any code of the analysed repository.
"""
from fractions import Fraction
import math
import time

_tab = {}


class T:
    __slots__ = ('op', 'args', 'uid', '_free')

    def __repr__(self):
        return show(self)


class OutOfTime(BaseException):
    """an obligation took longer than its share; it stays undecided"""


_clock = [float('inf'), 0, float('inf')]


def set_deadline(seconds, soft=None):
    """hard limit of an obligation, and when the search for differences ends"""
    _clock[0] = time.time() + seconds
    _clock[2] = time.time() + (seconds if soft is None else min(soft, seconds))


def spent():
    return time.time() > _clock[2]


def clear_deadline():
    _clock[0] = _clock[2] = float('inf')


def tick():
    _clock[1] += 1
    if not _clock[1] & 1023 and time.time() > _clock[0]:
        raise OutOfTime('out of time')


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        tick()
        t = T()
        t.op = op
        t.args = args
        t.uid = len(_tab)
        t._free = None
        _tab[key] = t
    return t


class Box:
    """Interning wrapper for analysis-time python objects (functions, classes,
    modules) that appear as values."""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj

    def __hash__(self):
        return id(self.obj)

    def __eq__(self, other):
        return isinstance(other, Box) and self.obj is other.obj


def pyv(obj):
    return mk('pyv', Box(obj))


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if math.isnan(x):
            return NAN
        if math.isinf(x):
            return INF if x > 0 else mk('ninf')
        return mk('num', Fraction(repr(x)) if 'e' not in repr(x) else Fraction(x).limit_denominator(10**18) if abs(x) > 1e-9 else Fraction(x))
    return mk('num', Fraction(x))


TRUE = mk('bool', True)
FALSE = mk('bool', False)
NONE = mk('none')
NAN = mk('nan')
INF = mk('inf')
NINF = mk('ninf')
PI = mk('pi')
ZERO = num(0)
ONE = num(1)
UNDEF = mk('undef')


def s(x):
    return mk('str', x)


def sym(name, kind='any'):
    return mk('sym', name, kind)


# attributes whose values have as many elements as one of them, by stipulation
EQLEN = {}


def app(name, *args):
    if name == 'len' and EQLEN and len(args) == 1 and args[0].op == 'attr' and args[0].args[1] in EQLEN:
        args = (mk('attr', args[0].args[0], EQLEN[args[0].args[1]]),)
    if name == 'len' and len(args) == 1 and args[0].op == 'app' and args[0].args[0] == 'tuple':
        return app('len', *args[0].args[1:])
    if name == 'len' and len(args) == 1 and _parameters(args[0]):
        args = (mk('app', 'm.values', args[0]),)
    return mk('app', name, *args)


def boolean(b):
    return TRUE if b else FALSE


def is_num(t):
    return t.op == 'num'


def const_val(t):
    """python constant of a constant term, or raises KeyError"""
    if t.op == 'num':
        v = t.args[0]
        return int(v) if v.denominator == 1 else v
    if t.op == 'str':
        return t.args[0]
    if t.op == 'bool':
        return t.args[0]
    if t.op == 'none':
        return None
    raise KeyError


def is_const(t):
    return t.op in ('num', 'str', 'bool', 'none')


STRUCT = ('vec', 'tup', 'list', 'lam', 'ref', 'recs', 'row', 'pyv', 'dict', 'cmp')


# ---------------------------------------------------------------- arithmetic

def add(*xs):
    coef = {}
    const = Fraction(0)
    special = None
    stack = list(xs)
    while stack:
        x = stack.pop()
        if x.op == 'num':
            const += x.args[0]
        elif x.op == 'add':
            stack.extend(x.args)
        elif x.op == 'nan':
            return NAN
        elif x.op in ('inf', 'ninf'):
            special = x
        else:
            c, r = split_coef(x)
            coef[r] = coef.get(r, 0) + c
    if special is not None:
        return special
    items = [scale(c, r) for r, c in coef.items() if c != 0]
    items.sort(key=lambda t: t.uid)
    if const != 0:
        items.append(num(const))
    if not items:
        return ZERO
    if len(items) == 1:
        return items[0]
    return mk('add', *items)


def split_coef(x):
    if x.op == 'mul' and x.args[0].op == 'num':
        rest = x.args[1:]
        return x.args[0].args[0], (rest[0] if len(rest) == 1 else mk('mul', *rest))
    return Fraction(1), x


def scale(c, r):
    if c == 1:
        return r
    if r.op == 'mul':
        return mk('mul', num(c), *r.args)
    return mk('mul', num(c), r)


def mul(*xs):
    powers = {}
    const = Fraction(1)
    stack = list(xs)
    while stack:
        x = stack.pop()
        if x.op == 'num':
            const *= x.args[0]
        elif x.op == 'mul':
            stack.extend(x.args)
        elif x.op == 'nan':
            return NAN
        elif x.op == 'pow' and x.args[1].op == 'num':
            powers[x.args[0]] = powers.get(x.args[0], 0) + x.args[1].args[0]
        else:
            powers[x] = powers.get(x, 0) + 1
    if const == 0:
        return ZERO
    items = []
    for b, e in powers.items():
        if e == 0:
            continue
        items.append(b if e == 1 else mk('pow', b, num(e)))
    items.sort(key=lambda t: t.uid)
    if not items:
        return num(const)
    if len(items) == 1:
        it = items[0]
        if const == 1:
            return it
        if it.op == 'add':  # distribute constants
            return add(*[mul(num(const), a) for a in it.args])
        return mk('mul', num(const), it)
    if const != 1:
        return mk('mul', num(const), *items)
    return mk('mul', *items)


def neg(x):
    if x.op == 'inf':
        return NINF
    if x.op == 'ninf':
        return INF
    return mul(num(-1), x)


def sub(a, b):
    return add(a, neg(b))


def power(a, b):
    if b.op == 'num':
        e = b.args[0]
        if a.op == 'nan':
            return NAN
        if e == 0:
            return ONE
        if e == 1:
            return a
        if e == Fraction(1, 2):
            return app('sqrt', a)
        if a.op == 'num' and e.denominator == 1 and not (a.args[0] == 0 and e < 0):
            return num(a.args[0] ** int(e))
        if a.op == 'pow' and a.args[1].op == 'num' and e.denominator == 1:
            return mul(mk('pow', a.args[0], num(a.args[1].args[0] * e)))
        if a.op == 'mul' and e.denominator == 1:
            return mul(*[power(x, b) for x in a.args])
        return mk('pow', a, b)
    return mk('pow', a, b)


def div(a, b):
    if b.op == 'num' and b.args[0] == 0:
        return app('div0', a)
    return mul(a, power(b, num(-1)))


def floordiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    return floor(div(a, b))


def floor(x):
    if x.op == 'num':
        return num(x.args[0] // 1)
    if x.op == 'app' and x.args[0] in ('floor', 'len'):
        return x
    return app('floor', x)


def mod(a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    return sub(a, mul(b, floordiv(a, b)))


# ------------------------------------------------------------------ booleans

def not_(x):
    if x.op == 'bool':
        return boolean(not x.args[0])
    if x.op == 'not':
        return x.args[0]
    if x.op == 'ite':
        if x.args[1].op == 'bool' or x.args[2].op == 'bool':
            return ite(x.args[0], not_(x.args[1]), not_(x.args[2]))
    return mk('not', x)


def and_(*xs):
    return _nary('and', xs, FALSE, TRUE)


def or_(*xs):
    return _nary('or', xs, TRUE, FALSE)


def _nary(op, xs, absorb, unit):
    out = []
    seen = set()
    stack = list(reversed(xs))
    while stack:
        x = stack.pop()
        if x is absorb:
            return absorb
        if x is unit:
            continue
        if x.op == op:
            stack.extend(reversed(x.args))
            continue
        if x in seen:
            continue
        if not_(x) in seen:
            return absorb
        seen.add(x)
        out.append(x)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.uid)
    return mk(op, *out)


def lt(a, b):
    """a < b  as a test on the sign of a - b"""
    for x in (a, b):
        if x.op == 'nan':
            return FALSE
    if a is b:
        return FALSE
    if a.op in ('ninf',) and b.op != 'ninf' or b.op == 'inf' and a.op == 'num':
        return TRUE
    if a.op == 'inf' or b.op == 'ninf':
        return FALSE
    if b.op == 'inf':
        return mk('lt', a, b)
    p = sub(a, b)
    if p.op == 'num':
        return boolean(p.args[0] < 0)
    return mk('lt', a, b)


def le(a, b):
    for x in (a, b):
        if x.op == 'nan':
            return FALSE
    if a is b:
        return TRUE
    if a.op == 'ninf' or b.op == 'inf':
        return TRUE
    p = sub(a, b)
    if p.op == 'num':
        return boolean(p.args[0] <= 0)
    return mk('le', a, b)


ATOMIC = ('str', 'none', 'bool', 'cls')


def eq(a, b):
    if a is b:
        return FALSE if a.op == 'nan' else TRUE
    if a.op == 'ite' and is_const(b) and (is_const(a.args[1]) or is_const(a.args[2])):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and is_const(a) and (is_const(b.args[1]) or is_const(b.args[2])):
        return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
    if is_const(a) and is_const(b):
        return boolean(const_val(a) == const_val(b))
    if a.op == 'nan' or b.op == 'nan':
        return FALSE
    if a.op in ('tup', 'list', 'vec') and b.op == a.op:
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    for x, y in ((a, b), (b, a)):
        # file names that consist of the extension alone do not occur
        if x.op == 'app' and x.args[0] == 'os.path.ext' and y.op == 'str' and y.args[0][:1] == '.' and y.args[0].count('.') == 1:
            return app('m.endswith', x.args[1], y)
    if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] == 'hash':
        return eq(a.args[1], b.args[1])
    if a.op == 'gconst' and b.op == 'gconst':
        return FALSE
    if (a.op in ('num', 'str', 'none', 'bool') and b.op in ('tup', 'list', 'dict', 'fnt', 'clsv')) or \
            (b.op in ('num', 'str', 'none', 'bool') and a.op in ('tup', 'list', 'dict', 'fnt', 'clsv')):
        return FALSE
    p = None
    if _numeric(a) and _numeric(b):
        p = sub(a, b)
        if p.op == 'num':
            return boolean(p.args[0] == 0)
    if b.op == 'bool':
        a, b = b, a
    if a.op == 'bool' and is_boolish(b):
        return b if a.args[0] else not_(b)
    if a.uid > b.uid:
        a, b = b, a
    return mk('eq', a, b)


def _numeric(t):
    return t.op in ('num', 'add', 'mul', 'pow', 'idx', 'sum') or (t.op in ('sym', 'cv') and t.args[1] in ('real', 'int')) or \
        (t.op == 'el' and t.args[0] in ('real', 'int')) or (t.op == 'cel' and t.args[0].args[1] in ('real', 'int')) or \
        (t.op == 'app' and t.args[0] in ('len', 'floor', 'sqrt', 'abs'))


BOOLOPS = ('bool', 'not', 'and', 'or', 'lt', 'le', 'eq', 'isinst', 'in', 'lexit', 'truth', 'isnan', 'exists', 'callable', 'raised')


def is_boolish(t):
    if t.op in BOOLOPS:
        return True
    if t.op == 'ite':
        return is_boolish(t.args[1]) and is_boolish(t.args[2])
    if t.op == 'el':
        return t.args[0] == 'bool'
    if t.op == 'sym' or t.op == 'cv':
        return t.args[1] == 'bool'
    if t.op == 'cel':
        return t.args[0].args[1] == 'bool'
    if t.op == 'lval':
        return is_boolish(t.args[1])
    if t.op == 'lout':
        return t.args[0].args[2][t.args[1]].args[1] == 'bool'
    if t.op == 'item' and t.args[0].op == 'lout':
        return is_boolish(t.args[0])
    return False


def truth(t):
    if is_boolish(t):
        return t
    if t.op == 'num':
        return boolean(t.args[0] != 0)
    if t.op in ('nan', 'inf', 'ninf', 'pi', 'fnt', 'pyv', 'clsv'):
        return TRUE
    if t.op == 'str':
        return boolean(bool(t.args[0]))
    if t.op == 'none':
        return FALSE
    if t.op in ('tup', 'list', 'dict'):
        return boolean(bool(t.args))
    if t.op == 'ite':
        return ite(t.args[0], truth(t.args[1]), truth(t.args[2]))
    if t.op in ('add', 'mul', 'pow') or (t.op == 'app' and t.args[0] in ('sqrt', 'abs', 'floor', 'len', 'exp')) or \
            (t.op == 'el' and t.args[0] in ('real', 'int')) or (t.op == 'sym' and t.args[1] in ('real', 'int')):
        return not_(eq(t, ZERO))
    return mk('truth', t)


def isnan(t):
    if t.op == 'nan':
        return TRUE
    if t.op in ('num', 'inf', 'ninf', 'pi'):
        return FALSE
    if t.op == 'ite':
        return ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
    return mk('isnan', t)


def ite(c, a, b):
    if c.op == 'bool':
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.op == b.op and a.op in ('vec', 'tup') and len(a.args) == len(b.args):
        return mk(a.op, *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'lam' and b.op == 'lam' and a.args[1] is b.args[1]:
        i = a.args[0]
        return lam(i, a.args[1], ite(c, a.args[2], subst(b.args[2], {b.args[0]: i})))
    if a.op == 'bool' and b.op == 'bool':
        return c if a.args[0] else not_(c)
    if is_boolish(a) and is_boolish(b):
        if a.op == 'bool':
            return or_(c, b) if a.args[0] else and_(not_(c), b)
        if b.op == 'bool':
            return or_(not_(c), a) if b.args[0] else and_(c, a)
    return mk('ite', c, a, b)


# --------------------------------------------------------------- structures

_idx = [0]


# the lengths of the arrays whose elements are free
EL_LEN = {}


def fresh_idx():
    _idx[0] += 1
    return mk('idx', _idx[0])


def lam(i, n, body):
    return mk('lam', i, n, body)


def vec(*xs):
    return mk('vec', *xs)


def tup(*xs):
    return mk('tup', *xs)


def lst(*xs):
    return mk('list', *xs)


def atleast0(n):
    return ite(lt(ZERO, n), n, ZERO)


def length(t):
    if t.op in ('vec', 'tup', 'list'):
        if any(x.op == 'star' for x in t.args):
            return app('len', t)
        return num(len(t.args))
    if t.op == 'lam':
        return t.args[1]
    if t.op == 'str':
        return num(len(t.args[0]))
    if t.op == 'dict':
        return num(len(t.args))
    if t.op == 'ite':
        return ite(t.args[0], length(t.args[1]), length(t.args[2]))
    if t.op == 'app' and t.args[0] == 'm.item' and len(t.args) == 2:
        # the row of a structured array: one value per field
        return app('len', mk('attr', mk('attr', t.args[1], 'dtype'), 'names'))
    if t.op == 'app' and t.args[0] in ('array', 'npcopy') and len(t.args) > 1:
        return length(t.args[1])
    c = _cut(t)
    if c is not None:
        return atleast0(sub(sub(length(c[0]), c[1]), c[2]))
    return app('len', t)


def rank(t):
    if t.op == 'vec':
        return 1 + (rank(t.args[0]) if t.args else 0)
    if t.op == 'lam':
        return 1 + rank(t.args[2])
    if t.op == 'cmp':
        return 1 + rank(t.args[3])
    if t.op == 'ite':
        return max(rank(t.args[1]), rank(t.args[2]))
    return 0


# ------------------------------------------------------- traversal / subst

def children(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from _tup_children(a)


def _tup_children(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tup_children(x)


def free(t):
    """set of sym/idx/cv leaves occurring in t"""
    if t._free is None:
        stack = [t]
        while stack:
            u = stack[-1]
            if u._free is not None:
                stack.pop()
                continue
            pend = [c for c in children(u) if c._free is None]
            if pend:
                stack.extend(pend)
                continue
            f = set()
            for c in children(u):
                f |= c._free
            if u.op in ('sym', 'idx', 'cv'):
                f.add(u)
            u._free = frozenset(f)
            stack.pop()
    return t._free


REBUILD = {
    'add': add, 'mul': mul, 'not': not_, 'and': and_, 'or': or_,
    'lt': lt, 'le': le, 'eq': eq, 'ite': ite, 'pow': power, 'truth': truth,
    'isnan': isnan,
}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    if op == 'app':
        if args[0] == 'floor':
            return floor(args[1])
        if args[0] == 'len':
            return length(args[1])
    if op == 'item':
        return item(*args)
    if op == 'sum':
        from .loops import _sum
        return _sum(*args)
    if op == 'exists':
        from .loops import _exists
        return _exists(*args)
    return mk(op, *args)


def item(x, k):
    """x[k] for pure structured x when it can be resolved, else opaque"""
    if x.op == 'ite':
        return ite(x.args[0], item(x.args[1], k), item(x.args[2], k))
    if x.op in ('vec', 'tup', 'list') and k.op == 'num' and k.args[0].denominator == 1 \
            and not any(a.op == 'star' for a in x.args):
        i = int(k.args[0])
        if -len(x.args) <= i < len(x.args):
            return x.args[i]
        if not any(a.op == 'pyv' for a in x.args):
            return app('outside', x, k)
    if x.op == 'lam':
        if k.op == 'num' and k.args[0] < 0:
            k = add(x.args[1], k)
        return subst(x.args[2], {x.args[0]: k})
    if x.op in ('vec', 'tup') and x.args and k.op not in ('str', 'num', 'slice') and \
            not any(a.op in ('star', 'pyv') for a in x.args):
        r = x.args[-1]
        for j in range(len(x.args) - 2, -1, -1):
            r = ite(eq(k, num(j)), x.args[j], r)
        return r
    if x.op == 'dict' and is_const(k):
        for kk, v in reversed(x.args):
            if kk is k:
                return v
    if x.op == 'app' and x.args[0] == 'tuple' and len(x.args) == 2 and x.args[1].op != 'str':
        return item(x.args[1], k)
    if k.op == 'idx' or k.op == 'num' and k.args[0] >= 0:
        c = _cut(x)
        if c is not None and (k.op == 'idx' or c[2] is ZERO):
            return item(c[0], add(k, c[1]))
    if k is ZERO and x.op == 'attr' and x.args[1] == 'shape' and x.args[0].op in ('sym', 'attr', 'item', 'app', 'el', 'res'):
        return length(x.args[0])
    if _parameters(x):
        # a mapping of the parameters by their names
        vs = app('m.values', x)
        if k.op in ('idx', 'num'):
            return mk('attr', mk('item', vs, k), 'name')
        if k.op == 'attr' and k.args[1] == 'name' and k.args[0].op == 'item' and k.args[0].args[0] is vs:
            return k.args[0]
    return mk('item', x, k)


def _cut(x):
    """s, first, dropped of s[first:] and s[first:-dropped] with constants; None for others"""
    if x.op != 'item' or x.args[1].op != 'slice' or x.args[0].op not in ('sym', 'attr', 'item', 'app', 'el'):
        return None
    a, b, stp = x.args[1].args
    if stp is not NONE or (a is not NONE and (a.op != 'num' or a.args[0] < 0)) or (b is not NONE and (b.op != 'num' or b.args[0] >= 0)):
        return None
    return x.args[0], ZERO if a is NONE else a, ZERO if b is NONE else neg(b)


def _parameters(x):
    return x.op == 'attr' and x.args[1] == 'parameters' and x.args[0].op == 'app' and x.args[0].args[0] == 'inspect.signature'


def subst(t, m):
    m = {k: v for k, v in m.items() if k is not v}
    if not m:
        return t
    keys = frozenset(m)
    cache = {}

    def go(u):
        if not (free(u) & keys) and u.op not in ('sym', 'idx', 'cv'):
            return u
        r = cache.get(u)
        if r is not None:
            return r
        if u in m:
            r = m[u]
        else:
            args = u.args
            if u.op in OUTER and args and isinstance(args[0], T) and args[0].op == 'idx' and (args[0] in m or args[0] in inner):
                # the index bound here is another one than the one replaced, or than one put in
                out = OUTER[u.op]
                new = {args[0]: fresh_idx()}
                args = tuple(new[args[0]] if j == 0 else a if j in out else sub1(a, new) for j, a in enumerate(args))
            args = tuple(goarg(a) for a in args)
            r = rebuild(u.op, args)
        cache[u] = r
        return r

    def sub1(a, new):
        return subst(a, new) if isinstance(a, T) else tuple(sub1(x, new) for x in a) if isinstance(a, tuple) else a

    def goarg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goarg(x) for x in a)
        return a
    inner = set()
    for v in m.values():
        inner.update(x for x in free(v) if x.op == 'idx')
    return go(t)


# the arguments of a binder outside the scope of its index
OUTER = {'lam': (1,), 'mapl': (1,), 'cmp': (1,), 'mapflat': (1,), 'sum': (1, 2), 'exists': (1, 2), 'alam': (), 'loop': (1, 2, 3)}


def occurs(i, u):
    """does the index occur in u outside the scope of an equally named one?"""
    if isinstance(u, tuple):
        return any(occurs(i, x) for x in u)
    if not isinstance(u, T) or i not in free(u):
        return False
    if u is i:
        return True
    out = OUTER.get(u.op)
    if out is not None and u.args and u.args[0] is i:
        return any(occurs(i, u.args[j]) for j in out)
    return any(occurs(i, x) for x in u.args)


def subst_terms(t, m):
    """replace arbitrary sub-terms"""
    cache = {}

    def go(u):
        if u in m:
            return m[u]
        r = cache.get(u)
        if r is not None:
            return r
        args = tuple(goarg(a) for a in u.args)
        r = u if args == u.args else rebuild(u.op, args)
        cache[u] = r
        return r

    def goarg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goarg(x) for x in a)
        return a
    return go(t)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        stack.extend(children(u))


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return repr(t)
    if d > 14:
        return '...'
    o, a = t.op, t.args
    f = lambda x: show(x, d + 1)
    if o == 'num':
        return str(a[0]) if a[0].denominator < 10**6 else '%.6g' % float(a[0])
    if o == 'str':
        return repr(a[0])
    if o == 'bool':
        return str(a[0])
    if o in ('none', 'nan', 'inf', 'ninf', 'pi', 'undef'):
        return o
    if o == 'sym':
        return str(a[0])
    if o == 'idx':
        return 'k%s' % a[0]
    if o == 'add':
        return '(' + ' + '.join(map(f, a)) + ')'
    if o == 'mul':
        return '*'.join(map(f, a))
    if o == 'pow':
        return '%s^%s' % (f(a[0]), f(a[1]))
    if o == 'app':
        return '%s(%s)' % (a[0], ', '.join(map(f, a[1:])))
    if o == 'el':
        return '%s[%s]' % (a[1] if isinstance(a[1], str) else f(a[1]), ','.join(map(f, a[2:])))
    if o == 'lt':
        return '%s < %s' % (f(a[0]), f(a[1]))
    if o == 'le':
        return '%s <= %s' % (f(a[0]), f(a[1]))
    if o == 'eq':
        return '%s == %s' % (f(a[0]), f(a[1]))
    if o == 'not':
        return 'not(%s)' % f(a[0])
    if o in ('and', 'or'):
        return '(' + (' %s ' % o).join(map(f, a)) + ')'
    if o == 'ite':
        return 'if(%s; %s; %s)' % tuple(map(f, a))
    if o == 'vec':
        return '<' + ', '.join(map(f, a)) + '>'
    if o == 'tup':
        return '(' + ', '.join(map(f, a)) + ')'
    if o == 'list':
        return '[' + ', '.join(map(f, a)) + ']'
    if o == 'lam':
        return '[%s | %s<%s]' % (f(a[2]), f(a[0]), f(a[1]))
    if o == 'attr':
        return '%s.%s' % (f(a[0]), a[1])
    if o == 'item':
        return '%s[%s]' % (f(a[0]), f(a[1]))
    return '%s(%s)' % (o, ', '.join(f(x) for x in a))
