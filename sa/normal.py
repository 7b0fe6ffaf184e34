"""Arithmetic normal form of value graphs: sums and products become polynomials
over atoms (bounded expansion), comparisons become sign tests of a primitive
polynomial, bound indices get canonical names."""
from fractions import Fraction
from . import terms as t
from .terms import T

CAP = 24          # monomials per polynomial
WORK = 60000      # monomial products per comparison
SIMPLE_BINDERS = ('lam', 'mapl', 'cmp', 'sum', 'exists', 'mapflat', 'alam')


class TooBig(Exception):
    pass


class Norm:
    def __init__(self, cap=CAP):
        self.cap = cap
        self.work = 0
        self.memo = {}
        self.polys = {}
        self.heights = {}

    def __call__(self, u):
        return self.alpha(self.go(self.alpha(u)))

    # ---- bound names
    def height(self, u):
        h = self.heights.get(u)
        if h is None:
            stack = [u]
            while stack:
                x = stack[-1]
                if x in self.heights:
                    stack.pop()
                    continue
                ch = list(t.children(x))
                pend = [c for c in ch if c not in self.heights]
                if pend:
                    stack.extend(pend)
                    continue
                m = max([self.heights[c] for c in ch], default=0)
                self.heights[x] = m + (1 if x.op in SIMPLE_BINDERS else 0)
                stack.pop()
            h = self.heights[u]
        return h

    def alpha(self, u):
        cache = {}

        def go(x):
            r = cache.get(x)
            if r is not None:
                return r
            args = tuple(arg(a) for a in x.args)
            if x.op in SIMPLE_BINDERS:
                b = t.mk('idx', 'b%d' % self.height(x))
                if b is not args[0]:
                    o = args[0]
                    args = (b, ) + tuple(t.subst(a, {o: b}) if isinstance(a, T) else a for a in args[1:])
            if args == x.args:
                r = x
            elif x.op in SIMPLE_BINDERS:
                r = t.mk(x.op, *args)
            else:
                r = t.rebuild(x.op, args)
            cache[x] = r
            return r

        def arg(a):
            if isinstance(a, T):
                return go(a)
            if isinstance(a, tuple):
                return tuple(arg(y) for y in a)
            return a
        return go(u)

    # ---- normal form
    def go(self, u):
        r = self.memo.get(u)
        if r is None:
            r = self.calc(u)
            self.memo[u] = r
            self.memo[r] = r
        return r

    def arg(self, a):
        if isinstance(a, T):
            return self.go(a)
        if isinstance(a, tuple):
            return tuple(self.arg(x) for x in a)
        return a

    def calc(self, u):
        o = u.op
        if o in ('num', 'sym', 'idx', 'cv', 'str', 'bool', 'none', 'pi', 'nan'):
            return u
        if o in ('add', 'mul', 'pow'):
            return self.unpoly(self.poly(u))
        if o == 'app' and u.args[0] == 'sqrt':
            return t.app('sqrt', self.go(u.args[1]))
        args = tuple(self.arg(a) for a in u.args)
        if o in ('lt', 'le', 'eq') and (o != 'eq' or (t._numeric(args[0]) and t._numeric(args[1]))):
            a, b = args
            if a.op in ('inf', 'ninf', 'nan') or b.op in ('inf', 'ninf', 'nan'):
                return t.rebuild(o, args)
            p = self.primitive(self.poly(t.sub(a, b)), o == 'eq')
            if o == 'eq' and self.mono(p) is not None and b is not t.ZERO and a is not t.ZERO and False:
                pass
            d = self.unpoly(p)
            if d.op == 'num':
                return t.boolean(d.args[0] < 0 if o == 'lt' else d.args[0] <= 0 if o == 'le' else d.args[0] == 0)
            return t.mk(o, d, t.ZERO) if o != 'eq' else t.mk('eq', *sorted((d, t.ZERO), key=lambda x: x.uid))
        if o in SIMPLE_BINDERS:
            return t.rebuild(o, args) if o in ('sum', 'exists') else t.mk(o, *args)
        return t.rebuild(o, args)

    def mono(self, p):
        return next(iter(p)) if len(p) == 1 else None

    def primitive(self, p, sign):
        if not p:
            return p
        lead = max(p, key=lambda m: (len(m), tuple((a.uid, e) for a, e in m)))
        c = p[lead]
        c = c if sign else abs(c)
        if c == 1:
            return p
        return {m: k / c for m, k in p.items()}

    def poly(self, u):
        """dict monomial -> coefficient; monomial = sorted tuple of (atom, exponent)"""
        r = self.polys.get(u)
        if r is None:
            r = self._poly(u)
            self.polys[u] = r
        return r

    def atom(self, a):
        if a.op == 'num':
            return {(): a.args[0]} if a.args[0] else {}
        return {((a, Fraction(1)),): Fraction(1)}

    def _poly(self, u):
        o = u.op
        if o == 'num':
            return {(): u.args[0]} if u.args[0] else {}
        if o == 'add':
            r = {}
            for a in u.args:
                for m, c in self.poly(a).items():
                    r[m] = r.get(m, 0) + c
            return {m: c for m, c in r.items() if c}
        if o == 'mul':
            r = {(): Fraction(1)}
            rest = []
            for a in sorted(u.args, key=lambda x: len(self.poly(x))):
                p = self.poly(a)
                if len(r) * len(p) > self.cap:
                    rest.append(self.content(p))
                else:
                    r = self.times(r, p)
            for c, q in rest:
                r = self.times({m: k * c for m, k in r.items()}, self.atom(q))
            return r
        if o == 'pow' and u.args[1].op == 'num':
            e = u.args[1].args[0]
            p = self.poly(u.args[0])
            if len(p) == 1:
                (m, c), = p.items()
                if e.denominator == 1 and (c != 0):
                    return {tuple((a, k * e) for a, k in m): c ** int(e)}
            if not p:
                return {((t.mk('pow', t.ZERO, u.args[1]), Fraction(1)),): Fraction(1)}
            if e.denominator == 1 and e > 0 and e <= 4:
                r = p
                for _ in range(int(e) - 1):
                    if len(r) * len(p) > self.cap:
                        break
                    r = self.times(r, p)
                else:
                    return r
            c, q = self.content(p)
            if e.denominator == 1:
                return {((q, e),): c ** int(e)}
            return {((t.mk('pow', self.unpoly(p), u.args[1]), Fraction(1)),): Fraction(1)}
        if o == 'pow':
            return self.atom(t.mk('pow', self.go(u.args[0]), self.go(u.args[1])))
        g = self.go(u)
        if g.op in ('add', 'mul', 'pow') and g is not u:
            return self.poly(g)
        return self.atom(g)

    def content(self, p):
        """p = c * primitive part"""
        if not p:
            return Fraction(0), t.ONE
        q = self.primitive(p, True)
        m = next(iter(p))
        return p[m] / q[m], self.unpoly(q)

    def times(self, p, q):
        self.work += len(p) * len(q)
        if self.work > WORK:
            raise TooBig
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                e = dict(m)
                for a, k in n:
                    e[a] = e.get(a, 0) + k
                key = tuple(sorted(((a, k) for a, k in e.items() if k), key=lambda x: x[0].uid))
                r[key] = r.get(key, 0) + c * d
        return {m: c for m, c in r.items() if c}

    def unpoly(self, p):
        return t.add(*[t.mul(t.num(c), *[a if k == 1 else t.mk('pow', a, t.num(k)) for a, k in m]) for m, c in p.items()])
