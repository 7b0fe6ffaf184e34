"""The loop rule.

One abstract iteration of the body is interpreted over symbolic carried values
(phi nodes); the resulting recurrences are put into closed form where they are
inductive (counters, element-wise maps, sums, appends, flags) and otherwise
kept as an uninterpreted recurrence node.  Loops are never iterated.
"""
from . import terms as t
from .terms import T, mk, num, app, ite, ZERO, ONE, TRUE, FALSE, UNDEF

_cv = [0]


def fresh_cv(kind):
    _cv[0] += 1
    return mk('cv', _cv[0], kind)


class Leaf:
    __slots__ = ('cv', 'ks', 'path', 'init', 'next', 'cur', 'done', 'fin', 'comp', 'at')

    def __init__(self, cv, ks, path, comp):
        self.cv, self.ks, self.path, self.comp = cv, ks, path, comp
        self.cur = mk('cel', cv, *ks) if ks else cv
        self.init = self.next = self.fin = self.at = None
        self.done = False


class Comp:
    def __init__(self, key, mode, init):
        self.key, self.mode, self.init = key, mode, init
        self.template = None      # term whose structure is used
        self.content = None
        self.leaves = []
        self.loc = None
        self.raw = False


def leaf_kind(x):
    if t.is_boolish(x):
        return 'bool'
    if x.op in ('list', 'mapl', 'cat', 'lcat', 'mapflat'):
        return 'list'
    if isdict(x):
        return 'dict'
    if x.op in ('num', 'add', 'mul', 'pow', 'sum', 'nan', 'inf', 'ninf', 'pi', 'idx'):
        return 'real'
    if x.op in ('el', 'sym'):
        k = x.args[0] if x.op == 'el' else x.args[1]
        return 'real' if k in ('real', 'int') else 'any'
    if x.op in ('cv',):
        return x.args[1]
    if x.op == 'cel':
        return x.args[0].args[1]
    if x.op == 'app' and x.args[0] in NUMAPPS:
        return 'real'
    if x.op == 'ite':
        a, b = leaf_kind(x.args[1]), leaf_kind(x.args[2])
        return a if a == b else 'any'
    return 'any'


NUMAPPS = {'sqrt', 'floor', 'exp', 'log', 'cos', 'sin', 'abs', 'arctan2', 'len', 'max', 'min', 'ceil', 'atan2'}


def shape(tmpl, comp, ks=(), path=()):
    if tmpl.op == 'ite' and t.rank(tmpl) > 0:
        a = tmpl.args[1]
        return shape(a if t.rank(a) else tmpl.args[2], comp, ks, path)
    if tmpl.op in ('vec', 'tup') and tmpl.args and not any(x.op in ('star', 'pyv', 'ref') for x in tmpl.args):
        return mk(tmpl.op, *[shape(x, comp, ks, path + (num(j),)) for j, x in enumerate(tmpl.args)])
    if tmpl.op == 'lam':
        i = t.fresh_idx()
        return t.lam(i, tmpl.args[1], shape(tmpl.args[2], comp, ks + (i,), path + (i,)))
    lf = Leaf(fresh_cv(leaf_kind(tmpl)), ks, path, comp)
    comp.leaves.append(lf)
    return lf.cur


def project(v, path):
    for p in path:
        if v is UNDEF:
            return UNDEF
        v = t.item(v, p)
    return v


def compatible(a, b):
    """do two contents have the same structure?"""
    if a is UNDEF or b is UNDEF:
        return True
    if a.op == 'ite' and t.rank(a) > 0:
        return compatible(a.args[1], b) and compatible(a.args[2], b)
    if b.op == 'ite' and t.rank(b) > 0:
        return compatible(a, b.args[1]) and compatible(a, b.args[2])
    for o in ('vec', 'tup'):
        if a.op == o or b.op == o:
            return a.op == b.op and len(a.args) == len(b.args) and all(compatible(x, y) for x, y in zip(a.args, b.args))
    if a.op == 'lam' or b.op == 'lam':
        return a.op == b.op and a.args[1] is b.args[1] and compatible(a.args[2], b.args[2])
    return True


def fill(content_tmpl, leaves, get):
    """rebuild structured content from leaf values"""
    m = {}
    for lf in leaves:
        m[lf.cur] = get(lf)
    return t.subst_terms(content_tmpl, m) if content_tmpl not in m else m[content_tmpl]


def subst_cv(term, env):
    """env: cv -> (ks, body)"""
    if not env:
        return term
    keys = frozenset(env)
    cache = {}

    def go(u):
        if not (t.free(u) & keys):
            return u
        r = cache.get(u)
        if r is not None:
            return r
        if u.op == 'cel' and u.args[0] in keys:
            ks, body = env[u.args[0]]
            r = t.subst(body, dict(zip(ks, [go(a) for a in u.args[1:]])))
        elif u.op == 'cv' and u in keys:
            ks, body = env[u]
            if ks:
                r = u
            else:
                r = body
        else:
            r = t.rebuild(u.op, tuple(goarg(a) for a in u.args))
        cache[u] = r
        return r

    def goarg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(goarg(x) for x in a)
        return a
    return go(term)


# --------------------------------------------------------------- reductions

def shift(term, idx, lo):
    return term if lo is ZERO else t.subst(term, {idx: t.add(idx, lo)})


def mksum(idx, lo, hi, f):
    n = t.sub(hi, lo)
    f = shift(f, idx, lo)
    return _sum(idx, n, f)


def _sum(idx, n, f):
    if f is ZERO or n is ZERO:
        return ZERO
    if f.op in ('vec',):
        return mk('vec', *[_sum(idx, n, x) for x in f.args])
    if f.op == 'lam':
        return t.lam(f.args[0], f.args[1], _sum(idx, n, f.args[2]))
    if idx not in t.free(f):
        return t.mul(n, f)
    if f.op == 'add':
        return t.add(*[_sum(idx, n, x) for x in f.args])
    if f.op == 'mul':
        inv = [x for x in f.args if idx not in t.free(x)]
        dep = [x for x in f.args if idx in t.free(x)]
        if inv:
            return t.mul(*(inv + [_sum(idx, n, t.mul(*dep))]))
    if f.op == 'ite':
        c, a, b = f.args
        if idx not in t.free(c):
            return ite(c, _sum(idx, n, a), _sum(idx, n, b))
        if b is ZERO:
            g = solve_eq(c, idx)
            if g is not None:
                return ite(t.and_(t.le(ZERO, g), t.lt(g, n)), t.subst(a, {idx: g}), ZERO)
        if a is not ZERO and b is not ZERO:
            return t.add(_sum(idx, n, ite(c, a, ZERO)), _sum(idx, n, ite(c, ZERO, b)))
    g = over_list(idx, n, f)
    if g is not None:
        return g
    i2 = t.fresh_idx()
    return mk('sum', i2, n, t.subst(f, {idx: i2}))


def over_list(idx, n, f, ex=False):
    """a sum (existence) over the elements of a comprehension is the sum (existence) over its generators"""
    if n.op != 'app' or n.args[0] != 'len' or n.args[1].op not in ('mapflat', 'mapl'):
        return None
    L = n.args[1]
    e = t.fresh_idx()
    g = t.subst_terms(f, {t.item(L, idx): e})
    if idx in t.free(g):
        return None

    def walk(L):
        if L.op == 'mapl':
            k, m, c, v = L.args
            if ex:
                return _exists(k, m, t.and_(c, t.subst(g, {e: v})))
            return _sum(k, m, ite(c, t.subst(g, {e: v}), ZERO))
        if L.op == 'mapflat':
            k, m, inner = L.args[0], L.args[1], L.args[-1]
            r = walk(inner)
            return None if r is None else (_exists if ex else _sum)(k, m, r)
        return None
    return walk(L)


def solve_eq(c, idx):
    """g with c == (idx = g), g free of idx"""
    if c.op != 'eq':
        return None
    p = t.sub(c.args[0], c.args[1])
    return solve_lin(p, idx)


def solve_lin(p, idx, want_sign=False):
    """root of p = +-idx + rest"""
    parts = p.args if p.op == 'add' else (p,)
    sign, rest = 0, []
    for x in parts:
        if x is idx:
            sign = 1
        elif x.op == 'mul' and len(x.args) == 2 and x.args[0].op == 'num' and x.args[0].args[0] == -1 and x.args[1] is idx:
            sign = -1
        else:
            rest.append(x)
    if not sign:
        return None
    r = t.add(*rest) if rest else ZERO
    if idx in t.free(r):
        return None
    g = t.neg(r) if sign == 1 else r
    return (sign, g) if want_sign else g


def mkexists(idx, lo, hi, f):
    n = t.sub(hi, lo) if hi is not t.INF else t.INF
    f = shift(f, idx, lo)
    return _exists(idx, n, f)


def _exists(idx, n, f):
    if f is FALSE or n is ZERO:
        return FALSE
    if idx not in t.free(f):
        return t.and_(t.lt(ZERO, n), f)
    if f.op == 'or':
        return t.or_(*[_exists(idx, n, x) for x in f.args])
    if f.op == 'and':
        inv = [x for x in f.args if idx not in t.free(x)]
        if inv:
            return t.and_(*(inv + [_exists(idx, n, t.and_(*[x for x in f.args if idx in t.free(x)]))]))
    g = solve_eq(f, idx) if f.op == 'eq' else None
    if g is not None:
        return t.and_(t.le(ZERO, g), t.lt(g, n))
    g = over_list(idx, n, f, True)
    if g is not None:
        return g
    i2 = t.fresh_idx()
    return mk('exists', i2, n, t.subst(f, {idx: i2}))


def mkforall(idx, lo, hi, f):
    return t.not_(mkexists(idx, lo, hi, t.not_(f)))


def mkmapl(idx, lo, hi, c, x):
    n = t.sub(hi, lo)
    c, x = shift(c, idx, lo), shift(x, idx, lo)
    i2 = t.fresh_idx()
    return mk('mapl', i2, n, t.subst(c, {idx: i2}), t.subst(x, {idx: i2}))


def mkflat(idx, lo, hi, l):
    n = t.sub(hi, lo)
    l = shift(l, idx, lo)
    if l.op == 'list' and len(l.args) == 1:
        return mkmapl(idx, ZERO, n, TRUE, l.args[0])
    i2 = t.fresh_idx()
    return mk('mapflat', i2, n, t.subst(l, {idx: i2}))


def diff(nx, cur):
    """f with nx == cur + f, or None"""
    if nx is cur:
        return ZERO
    if nx.op == 'ite':
        a, b = diff(nx.args[1], cur), diff(nx.args[2], cur)
        if a is None or b is None:
            return None
        return ite(nx.args[0], a, b)
    if nx.op == 'add':
        d = t.sub(nx, cur)
        return d
    return None


def appended(nx, cur):
    """list of (cond, list term) appended to cur, or None"""
    from .interp import listcat
    if nx is cur:
        return t.lst()
    if nx.op == 'lcat':
        a = appended(nx.args[0], cur)
        if a is None:
            return None
        return listcat(a, nx.args[1])
    if nx.op == 'cat' and nx.args[0] is cur:
        r = t.lst()
        for x in nx.args[1:]:
            r = listcat(r, x)
        return r
    if nx.op == 'ite':
        a, b = appended(nx.args[1], cur), appended(nx.args[2], cur)
        if a is None or b is None:
            return None
        return ite(nx.args[0], a, b)
    return None


def entered(nx, cur):
    """list of (key, value) pairs entered into a dictionary, or None"""
    from .interp import listcat
    if nx is cur:
        return t.lst()
    if nx.op == 'store':
        a = entered(nx.args[0], cur)
        return None if a is None else listcat(a, t.lst(t.tup(nx.args[1], nx.args[2])))
    if nx.op == 'app' and nx.args[0] == 'dict.update':
        a = entered(nx.args[1], cur)
        return None if a is None else listcat(a, nx.args[2])
    if nx.op == 'ite':
        a, b = entered(nx.args[1], cur), entered(nx.args[2], cur)
        if a is None or b is None:
            return None
        return ite(nx.args[0], a, b)
    return None


def isdict(x):
    return x.op == 'dict' or x.op == 'app' and x.args[0] == 'dict' and len(x.args) == 2


def dictlike(x):
    return isdict(x) or x.op == 'cv' and x.args[1] == 'dict' or x.op == 'store' and dictlike(x.args[0]) or \
        x.op == 'app' and x.args[0] == 'dict.update' or x.op == 'ite' and dictlike(x.args[1]) and dictlike(x.args[2])


def enter(d, l):
    """dictionary d after the pairs of list l were entered"""
    from .interp import listcat
    if l.op == 'mapl' and l.args[2] is TRUE and l.args[1].op == 'app' and l.args[1].args[0] == 'len' and isdict(l.args[1].args[1]):
        # the items of another dictionary
        o, k = l.args[1].args[1], l.args[0]
        if l.args[3] is t.tup(t.item(o, k), t.item(o, t.item(o, k))):
            l = entries(o)
    return mkdict(listcat(entries(d), l)) if isdict(d) else t.app('dict.update', d, l)


def entries(x):
    return t.lst(*[t.tup(*p) for p in x.args]) if x.op == 'dict' else x.args[1]


def mkdict(l):
    if l.op == 'list' and all(x.op == 'tup' for x in l.args) and (len(l.args) < 2 or all(t.is_const(x.args[0]) for x in l.args)):
        out = []
        for x in l.args:
            k = next((i for i, p in enumerate(out) if p[0] is x.args[0]), None)
            if k is None:
                out.append((x.args[0], x.args[1]))
            else:
                out[k] = (x.args[0], x.args[1])
        return mk('dict', *out)
    return mk('app', 'dict', l)


def flat_of(idx, lo, hi, l):
    e = t.lst()
    if l.op == 'ite':
        c, a, b = l.args
        if b is e and a.op == 'list' and len(a.args) == 1:
            return mkmapl(idx, lo, hi, c, a.args[0])
        if a is e and b.op == 'list' and len(b.args) == 1:
            return mkmapl(idx, lo, hi, t.not_(c), b.args[0])
        # nested guards around a single append
        if b is e and a.op == 'ite' and a.args[2] is e and a.args[1].op == 'list' and len(a.args[1].args) == 1:
            return mkmapl(idx, lo, hi, t.and_(c, a.args[0]), a.args[1].args[0])
        if a.op == b.op == 'list' and len(a.args) == len(b.args) == 1:
            return mkmapl(idx, lo, hi, TRUE, ite(c, a.args[0], b.args[0]))
    if l.op == 'list' and len(l.args) == 1:
        return mkmapl(idx, lo, hi, TRUE, l.args[0])
    return mkflat(idx, lo, hi, l)


def map_array(lf, nx, idx, lo, hi, unresolved):
    """element-wise update: (on-index value as function of ks, dim, root)"""
    body = nx
    eqs = {}
    for u in t.subterms(body):
        if u.op == 'eq' and idx in t.free(u):
            for d, k in enumerate(lf.ks):
                if k in t.free(u):
                    p = t.sub(u.args[0], u.args[1])
                    g = solve_lin(p, idx)      # idx = g(k)
                    if g is not None and k in t.free(g) and not (t.free(g) & unresolved):
                        eqs.setdefault((d, g), []).append(u)
    for (d, g), us in eqs.items():
        off = t.subst_terms(body, {u: FALSE for u in us})
        if off is not lf.cur:
            continue
        on = t.subst_terms(body, {u: TRUE for u in us})
        on = t.subst(on, {idx: g})
        k = lf.ks[d]
        # own reads must be at the written index
        ok = True
        for u in t.subterms(on):
            if u.op == 'cel' and u.args[0] is lf.cv:
                if u.args[1 + d] is not k:
                    ok = False
            elif u.op in ('cv',) and u in unresolved and u is not lf.cv:
                ok = False
        if not ok:
            continue
        return on, d, g
    return None


# ------------------------------------------------------------------ the rule

def run_loop(I, lo, hi, elem, body, st, fr):
    from .interp import Exit, merge, init_of, live
    if lo.op == 'num' and hi.op == 'num':
        a, b = int(lo.args[0]), int(hi.args[0])
        if b <= a:
            return st, []
        if b - a <= I.unroll_limit:
            return I.unroll([elem(st, num(k)) for k in range(a, b)], body, st, fr)
    idx = t.fresh_idx()
    nloc0, nfid0 = I.nloc, I.nfid
    comps = {}
    st0 = st

    def iterate():
        s = st0.copy()
        s.tr = ()
        s.raised = []
        for c in comps.values():
            if c.mode == 'refvar':
                s.m[c.key] = mk('ref', c.loc)
                s.m[c.loc] = c.content
            else:
                s.m[c.key] = c.content
        start = dict(s.m)
        I.loopidx.append(idx)
        try:
            nr, ex = body(s, elem(s, idx))
        finally:
            I.loopidx.pop()
        extra = [Exit('raise', c, s_, v) for c, s_, v in s.raised]
        s.raised = []
        if nr is not None and nr is not s:
            extra += [Exit('raise', c, s_, v) for c, s_, v in nr.raised]
            nr.raised = []
        ex = extra + list(ex)
        nr = I.absorb(nr, ex)
        ex = [e for e in live(ex) if e.cond is not FALSE]
        return start, nr, ex

    def local_key(k):
        if k[0] == 'v':
            return k[1] > nfid0
        if k[0] == 'loc':
            return k[1] > nloc0
        return False

    def bound_key(k):
        """state of an object that only exists per iteration"""
        return k[0] in ('attr', 'item', 'p') and any(isinstance(x, T) and idx in t.free(x) for x in k[1:])

    def pure(S, v):
        if v is None:
            return UNDEF
        if v.op in ('pyv', 'row', 'recs', 'recsel', 'nt'):
            if v.op == 'pyv' and hasattr(v.args[0].obj, 'lst'):
                return I.deep(S, v)
            return v
        if v.op == 'tup' and any(x.op in ('pyv', 'row') for x in v.args):
            return v
        return I.deep(S, v)

    for rnd in range(10):
        start, nr, ex = iterate()
        changed = False
        outs = ([nr] if nr is not None else []) + [e.st for e in ex]
        for S in outs:
            for k, v in S.m.items():
                if start.get(k) is v or local_key(k) or bound_key(k):
                    continue
                if k in comps:
                    c = comps[k]
                    if S is not nr or c.raw:
                        continue
                    nv = pure(S, v)
                    if not compatible(nv, c.content) and not c.opaque:
                        # structure differs from the assumed one
                        if pure(st0, c.init) is UNDEF and not c.reshaped:
                            c.reshaped = True
                            reshape(I, c, nv)
                        else:
                            c.opaque = True
                            reshape_opaque(c, nv)
                        changed = True
                    continue
                iv = st0.m.get(k)
                if iv is None:
                    iv = init_of(k)
                nv = pure(S, v)
                if nv is UNDEF and iv is UNDEF:
                    continue
                c = Comp(k, 'plain', iv)
                c.opaque = c.reshaped = False
                ip = pure(st0, iv)
                if k[0] in ('v', 'attr', 'item') and (iv.op == 'ref' or v.op == 'ref'):
                    c.mode = 'refvar'
                    I.nloc += 1
                    c.loc = ('loc', 10**7 + I.nloc)
                c.initv = ip
                tm = ip if ip is not UNDEF else nv
                if nv.op in ('pyv', 'row', 'recs', 'recsel', 'nt') or (nv.op == 'tup' and any(x.op in ('pyv', 'row') for x in nv.args)):
                    c.raw = True
                    c.content = ip if ip is not UNDEF else mk('cv', 'raw', str(k[-1]))
                    if c.mode == 'refvar':
                        c.mode = 'plain'
                elif compatible(ip, nv):
                    c.content = shape(tm, c)
                    c.reshaped = ip is UNDEF
                else:
                    c.opaque = True
                    reshape_opaque(c, nv)
                comps[k] = c
                changed = True
        if not changed:
            break
    else:
        from .interp import Unsupported
        raise Unsupported('loop does not stabilise')

    if nr is None and not comps and not ex:
        return st0, []
    # per-iteration object state becomes an event
    for S in outs:
        evs = []
        for k, v in S.m.items():
            if bound_key(k) and start.get(k) is not v:
                evs.append(mk('ev', 'set', *([t.s(k[0])] + [x if isinstance(x, T) else t.s(str(x)) for x in k[1:]] + [I.deep(S, v)])))
        if evs:
            S.tr = S.tr + ((mk('evset', *evs),) if len(evs) > 1 else tuple(evs))

    leaves = [lf for c in comps.values() for lf in c.leaves]
    for c in comps.values():
        nv = None if nr is None else pure(nr, nr.m.get(c.key))
        for lf in c.leaves:
            lf.init = project(c.initv, lf.path) if not c.opaque else c.initv
            if nv is not None:
                lf.next = project(nv, lf.path) if not c.opaque else nv

    env = {}       # cv -> (ks, value at the start of iteration idx)
    single = nr is None
    exits = [[e, e.cond] for e in ex]

    def norm(x):
        return subst_cv(x, env) if x is not None else None

    if single:
        # at most one iteration
        for lf in leaves:
            env[lf.cv] = (lf.ks, lf.init)
        first = lambda x: t.subst(norm(x), {idx: lo})
        c0 = TRUE if hi is t.INF else t.lt(lo, hi)
        res = []
        nrm = None if c0 is TRUE else st0.copy()
        acc = None
        for e in ex:
            S = exit_state(I, st0, comps, e.st, first, pure)
            S.tr = st0.tr + tuple(first(x) for x in e.st.tr)
            val = e.val
            if val is not None:
                val = I.wrap(S, first(pure(e.st, val))) if pure(e.st, val).op not in ('pyv', 'row', 'recs') else val
            res.append(Exit(e.kind, t.and_(c0, first(e.cond)), S, val))
        return join_breaks(I, nrm, res)

    unresolved = {lf.cv for lf in leaves}
    hi_ = [hi]

    def resolve(lf, at, fin):
        lf.done = True
        lf.at, lf.fin = at, fin
        env[lf.cv] = (lf.ks, at)
        unresolved.discard(lf.cv)
        for o in leaves:
            o.next = norm(o.next)
        for x in exits:
            x[1] = norm(x[1])

    def try_leaf(lf, final_round):
        nx = lf.next
        if nx is lf.cur:
            resolve(lf, lf.init, lf.init)
            return True
        fr_ = t.free(nx) & unresolved
        if not lf.ks:
            d = diff(nx, lf.cur) if lf.init is not UNDEF else None
            if d is not None and not (t.free(d) & unresolved):
                if idx not in t.free(d):
                    resolve(lf, t.add(lf.init, t.mul(d, t.sub(idx, lo))), ('sum', d))
                    return True
                if final_round >= 1:
                    resolve(lf, t.add(lf.init, mksum(idx, lo, idx, d) if False else psum(idx, lo, d)), ('sum', d))
                    return True
            if not fr_:
                prev = t.subst(nx, {idx: t.sub(idx, ONE)})
                at = ite(t.eq(idx, lo), lf.init, prev) if lf.init is not UNDEF else prev
                resolve(lf, at, ('last', nx))
                return True
            if final_round >= 1 and lf.cv.args[1] == 'bool':
                for op, unit in (('or', 0), ('and', 1)):
                    if nx.op == op and lf.cur in nx.args:
                        f = (t.or_ if op == 'or' else t.and_)(*[x for x in nx.args if x is not lf.cur])
                        if not (t.free(f) & unresolved):
                            resolve(lf, flagform(op, lf.init, idx, lo, idx, f, True), ('flag', op, f))
                            return True
            if final_round >= 1:
                l = appended(nx, lf.cur)
                if dictlike(lf.init) and nx.op in ('store', 'ite', 'app'):
                    l = entered(nx, lf.cur)
                    if l is not None and not (t.free(l) & unresolved):
                        from .interp import listcat
                        j = t.fresh_idx()
                        resolve(lf, enter(lf.init, flat_of(j, lo, idx, t.subst(l, {idx: j}))), ('ent', l))
                        return True
                    l = None
                if l is not None and not (t.free(l) & unresolved):
                    j = t.fresh_idx()
                    from .interp import listcat
                    resolve(lf, listcat(lf.init if lf.init.op != 'tup' else t.lst(*lf.init.args), flat_of(j, lo, idx, t.subst(l, {idx: j}))), ('app', l))
                    return True
            return False
        # arrays
        m = map_array(lf, nx, idx, lo, hi_[0], unresolved)
        if m is not None:
            on, d, g = m
            on = subst_cv(on, {lf.cv: (lf.ks, lf.init)})
            resolve(lf, ite(t.and_(t.le(lo, g), t.lt(g, idx)), on, lf.init), ('map', on, g, d))
            return True
        if not fr_:
            prev = t.subst(nx, {idx: t.sub(idx, ONE)})
            resolve(lf, ite(t.eq(idx, lo), lf.init, prev) if lf.init is not UNDEF else prev, ('last', nx))
            return True
        if final_round >= 1:
            dd = diff(nx, lf.cur)
            if dd is not None and not (t.free(dd) & unresolved):
                resolve(lf, t.add(lf.init, psum(idx, lo, dd)), ('sum', dd))
                return True
        return False

    def psum(i, lo, d):
        j = t.fresh_idx()
        return mksum(j, lo, i, t.subst(d, {i: j}))

    def while_to_range():
        if hi_[0] is not t.INF or not exits:
            return False
        e, c = exits[0]
        if e.kind != 'break':
            return False
        if e.st.tr:
            return False
        k = c.args[0] if c.op == 'not' else None
        if k is None:
            if c.op == 'eq':
                g = solve_eq(c, idx)
                if g is None or (t.free(g) & (unresolved | {idx})):
                    return False
                b = g
            else:
                return False
        elif k.op in ('lt', 'le'):
            r = solve_lin(t.sub(k.args[0], k.args[1]), idx, True)
            if r is None or r[0] != 1 or (t.free(r[1]) & unresolved):
                return False
            b = r[1] if k.op == 'lt' else t.add(r[1], ONE)
        else:
            return False
        for cc in comps.values():
            if pure(e.st, e.st.m.get(cc.key)) is not cc.content and not cc.raw:
                return False
        hi_[0] = b
        del exits[0]
        return True

    progress = True
    while progress:
        progress = False
        for rnd in (0, 1):
            for lf in leaves:
                if not lf.done and lf.next is not None and try_leaf(lf, rnd):
                    progress = True
            if progress:
                break
        if while_to_range():
            progress = True
    hi = hi_[0]

    resid = [lf for lf in leaves if not lf.done]
    stop = t.or_(*[c for _, c in exits]) if exits else FALSE

    def make_loop(*terms):
        need = set()
        work = [x for x in terms] + [stop]
        seen = set()
        while work:
            x = work.pop()
            for cv in t.free(x) & unresolved:
                if cv not in need:
                    need.add(cv)
                    lf = next(l for l in resid if l.cv is cv)
                    work.append(lf.next)
        ls = [lf for lf in resid if lf.cv in need]
        n = t.INF if hi is t.INF else t.sub(hi, lo)
        arr = lambda lf, x: nest(lf.ks, x, lf)
        return mk('loop', idx, n, tuple(lf.cv for lf in ls),
                  tuple(arr(lf, lf.init) for lf in ls),
                  tuple(arr(lf, shift(lf.next, idx, lo)) for lf in ls),
                  shift(stop, idx, lo)), ls

    def nest(ks, x, lf):
        for k in reversed(ks):
            x = mk('alam', k, x)
        return x

    bounded = {idx}

    def lval(x):
        if not (t.free(x) & (unresolved | bounded)):
            return x
        if x.op in ('vec', 'tup', 'list'):
            return mk(x.op, *[lval(y) for y in x.args])
        if x.op == 'lam':
            return t.lam(x.args[0], x.args[1], lval(x.args[2]))
        if x.op == 'ite' and not (t.free(x.args[0]) & (unresolved | bounded)):
            return ite(x.args[0], lval(x.args[1]), lval(x.args[2]))
        if x is stop:
            return TRUE
        loop, _ = make_loop(x)
        return mk('lval', loop, shift(x, idx, lo))

    def lexit():
        if stop is FALSE:
            return FALSE
        if not (t.free(stop) & unresolved):
            return mkexists(idx, lo, hi, stop)
        loop, _ = make_loop()
        return mk('lexit', loop)

    def final(lf):
        if lf.done:
            f = lf.fin
            if isinstance(f, T):
                return f
            if f[0] == 'sum':
                j = t.fresh_idx()
                return t.add(lf.init, mksum(j, lo, hi, t.subst(f[1], {idx: j})))
            if f[0] == 'last':
                last = t.subst(norm(f[1]), {idx: t.sub(hi, ONE)})
                return ite(t.lt(lo, hi), last, lf.init) if lf.init is not UNDEF else last
            if f[0] == 'flag':
                return flagform(f[1], lf.init, idx, lo, hi, f[2], False)
            if f[0] == 'app':
                j = t.fresh_idx()
                from .interp import listcat
                return listcat(lf.init if lf.init.op != 'tup' else t.lst(*lf.init.args), flat_of(j, lo, hi, t.subst(f[1], {idx: j})))
            if f[0] == 'ent':
                j = t.fresh_idx()
                from .interp import listcat
                return enter(lf.init, flat_of(j, lo, hi, t.subst(f[1], {idx: j})))
            if f[0] == 'map':
                on, g, d = f[1:]
                on = norm(on)
                k = lf.ks[d]
                n = dimlen(lf, d)
                if g is k and lo is ZERO and (hi is n):
                    return on
                return ite(t.and_(t.le(lo, g), t.lt(g, hi)), on, lf.init)
        loop, ls = make_loop(lf.cur)
        o = mk('lout', loop, next(i for i, l in enumerate(ls) if l is lf))
        for k in lf.ks:
            o = mk('item', o, k)
        return o

    def dimlen(lf, d):
        c = lf.comp.content
        j = 0
        while True:
            if c.op == 'lam':
                if j == d:
                    return c.args[1]
                j += 1
                c = c.args[2]
            elif c.op in ('vec', 'tup'):
                c = c.args[0]
            else:
                return None

    # ---- results
    S = None
    body_tr = nr.tr
    tl = ()
    if body_tr:
        bt = mk('trace', *[norm(x) for x in body_tr])
        loop, _ = make_loop(bt)
        tl = (mk('tloop', loop, shift(bt, idx, lo)),)
    cnt = dict(nr.cnt)
    if hi is t.INF and not exits:
        # runs for ever (a generator loop): only its events are observable
        S = st0.copy()
        S.cnt = cnt
        S.tr = st0.tr + tl + (mk('ev', 'forever'),)
        for c in comps.values():
            if c.key[-1] == '__yields__' and not c.raw:
                # what a generator gives before it is asked no more
                put_comp(I, S, c, nr, final, None)
            elif c.mode != 'refvar' and not c.raw and c.key[0] != 'v':
                S.m[c.key] = mk('forever', t.s(str(c.key[-1])))
        return S, []
    if hi is not t.INF:
        S = st0.copy()
        S.cnt = cnt
        fins = {lf.cv: final(lf) for lf in leaves}
        for c in comps.values():
            put_comp(I, S, c, nr, lambda lf: fins[lf.cv], lambda v: t.subst(norm(v), {idx: t.sub(hi, ONE)}))
        S.tr = st0.tr + tl
    res = []
    le_ = lexit()
    before = FALSE
    for e, c in exits:
        eff = t.and_(t.not_(before), c)
        before = t.or_(before, c)
        f = lambda x: lval(norm(x))
        X = exit_state(I, st0, comps, e.st, f, pure)
        X.cnt = {k: max(cnt.get(k, 0), e.st.cnt.get(k, 0)) for k in set(cnt) | set(e.st.cnt)}
        xt = ()
        if e.st.tr:
            tt = mk('trace', *[norm(x) for x in e.st.tr])
            loop, _ = make_loop(tt)
            xt = (mk('tlast', loop, shift(tt, idx, lo)),)
        X.tr = st0.tr + tl + xt
        val = e.val
        if val is not None:
            pv = pure(e.st, val)
            if pv.op in ('pyv', 'row', 'recs'):
                val = lval(norm(I.deep(e.st, val))) if pv.op != 'row' else mk('row', pv.args[0], lval(norm(pv.args[1])))
            else:
                val = I.wrap(X, lval(norm(pv)))
        res.append(Exit(e.kind, t.and_(le_, lval(eff)), X, val))
    return join_breaks(I, S, res)


def flagform(op, init, idx, lo, hi, f, partial):
    j = t.fresh_idx()
    f = t.subst(f, {idx: j})
    if op == 'or':
        return t.or_(init, mkexists(j, lo, hi, f))
    return t.and_(init, mkforall(j, lo, hi, f))


def reshape(I, c, nv):
    c.leaves = []
    c.content = shape(nv, c)


def reshape_opaque(c, nv):
    c.leaves = []
    lf = Leaf(fresh_cv('any'), (), (), c)
    c.leaves.append(lf)
    c.content = lf.cur


def put_comp(I, S, c, nr, leafval, rawval):
    if c.raw:
        v = nr.m.get(c.key)
        try:
            v = rawval(v)
        except Exception:
            pass
        S.m[c.key] = v
        return
    v = fill(c.content, c.leaves, leafval)
    if c.mode == 'refvar':
        S.m[c.key] = I.wrap(S, v)
    else:
        S.m[c.key] = v


def exit_state(I, st0, comps, est, f, pure):
    X = st0.copy()
    for c in comps.values():
        v = est.m.get(c.key)
        if v is None:
            continue
        if c.raw:
            X.m[c.key] = v
            continue
        v = f(pure(est, v))
        if c.mode == 'refvar':
            X.m[c.key] = I.wrap(X, v)
        else:
            X.m[c.key] = v
    return X


def join_breaks(I, S, res):
    from .interp import merge, Exit
    out = []
    for e in res:
        if e.cond is FALSE:
            continue
        if e.kind == 'break':
            S = e.st if S is None else merge(e.cond, e.st, S)
        else:
            out.append(e)
    return S, out
