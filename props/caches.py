"""Cached methods of objects with traits: what a cached result was computed from must not change behind the cache.

For every method kept by functools.lru_cache / cache (found by its decorator) the traits its result depends on are read
off its summary; for each of them some observer of that trait has to clear that cache on every path."""
import ast
from sa import terms as t
from sa.check import Run, Unsupported, Budget
from props.trait_hooks import strings, MAGIC

CACHES = ('lru_cache', 'cache')
FIELD = 'crowddynamics.simulation.field.Field'


def deco(n):
    f = n.func if isinstance(n, ast.Call) else n
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def subterms(x, seen=None):
    seen = set() if seen is None else seen
    stack = [x]
    while stack:
        u = stack.pop()
        if isinstance(u, (tuple, list)):
            stack.extend(u)
        elif isinstance(u, t.T) and u not in seen:
            seen.add(u)
            stack.extend(u.args)
    return seen


def run(ck, f, params):
    return Run(ck.proj, f, params, {'opaque': 'maps'})


def params(f, cls):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return [(n, 'obj:' + cls.qual if i == 0 else 'any') for i, n in enumerate(names)]


def observers(proj, cls):
    """{trait: [methods]}, hidden: whether there may be more"""
    out, hidden, seen = {}, False, set()
    for k in proj.mro(cls):
        if isinstance(k, str):
            continue
        for m in k.methods.values():
            if m.node.name in seen:
                continue
            seen.add(m.node.name)
            for d in m.node.decorator_list:
                if deco(d) == 'observe':
                    a = [strings(k.mod, k, x) for x in d.args] if isinstance(d, ast.Call) else [None]
                    if None in a or not a:
                        hidden = True
                        continue
                    for x in sum(a, []):
                        out.setdefault(x, []).append(m)
            if any(isinstance(n, ast.Attribute) and n.attr in ('observe', 'on_trait_change') for n in ast.walk(m.node)):
                hidden = True
            if any(m.node.name == p % x for x in traits_of(proj, cls) for p in MAGIC['observe']):
                hidden = True
    return out, hidden


def traits_of(proj, cls):
    out = set()
    for k in proj.mro(cls):
        if not isinstance(k, str):
            out |= {n for n, v in k.attrs.items() if isinstance(v, ast.Call)}
    return out


def cached_methods(proj, cls):
    out = {}
    for k in reversed([k for k in proj.mro(cls) if not isinstance(k, str)]):
        for n, m in k.methods.items():
            out.pop(n, None)
            if any(deco(d) in CACHES for d in m.node.decorator_list):
                out[n] = m
    return out


def cleared(ck, m, cls, cached, trait):
    """cached methods an observer clears on every path; None when it cannot be told"""
    ps = params(m, cls)
    r = run(ck, m, [(n, 'change:' + trait if i == 1 else k) for i, (n, k) in enumerate(ps)])
    tr = r.obs.get('effects')
    got = set()
    if tr is None:
        return got
    keys = {f.qual: n for n, f in cached.items()}
    for e in tr.args:
        if e.op == 'ev' and e.args and 'cache_clear' in str(e.args[0]):
            n = keys.get(e.args[1].args[0]) if len(e.args) > 1 and e.args[1].op == 'fnref' else None
            if n is None:
                return None
            got.add(n)
        elif any(u.op == 'ev' and 'cache_clear' in str(u.args[0]) for u in subterms(e)):
            return None
    return got


def stale(ck):
    proj = ck.proj
    seen = 0
    for mn, mod in sorted(proj.modules.items()):
        if mn.startswith('specs.'):
            continue
        for nm, (k, c) in sorted(mod.names.items(), key=lambda x: x[0]):
            if k != 'class' or c.mod is not mod:
                continue
            if not any(not isinstance(b, str) and b.qual == FIELD for b in proj.mro(c)):
                continue
            cached = cached_methods(proj, c)
            table, hidden = observers(proj, c)
            traits = traits_of(proj, c)
            if c.qual != FIELD and not any(m.cls is c for m in list(cached.values()) + sum(table.values(), [])) and not set(c.methods) & set(proj.cls(FIELD).methods):
                continue        # everything that matters is inherited
            memo = {}
            for n, f in sorted(cached.items()):
                try:
                    r = run(ck, f, params(f, c))
                except (Unsupported, Budget) as e:
                    ck.fact('cached results follow the traits they depend on', ck.where(f), None, str(e), key='cache %s.%s' % (c.name, n))
                    continue
                reads = set()
                for o in r.obs.values():
                    for u in subterms(o):
                        if u.op == 'attr' and u.args[0].op == 'sym' and u.args[0].args[0] == r_self(f) and u.args[1] in traits:
                            reads.add(u.args[1])
                for tr in sorted(reads):
                    ok = False
                    for m in table.get(tr, ()):
                        if (m, tr) not in memo:
                            try:
                                memo[m, tr] = cleared(ck, m, c, cached, tr)
                            except (Unsupported, Budget):
                                memo[m, tr] = None
                        if memo[m, tr] is None:
                            ok = None if ok is False else ok
                        elif n in memo[m, tr]:
                            ok = True
                    if ok is False and hidden:
                        ok = None
                    seen += 1
                    ck.fact('a cached %s of %s is dropped when %s changes' % (n, c.name, tr), ck.where(f), ok,
                            '%s is kept by its cache when trait %r, on which it depends, changes' % (n, tr), key='cache %s.%s %s' % (c.name, n, tr))


def r_self(f):
    return f.node.args.args[0].arg


RULES = {'C32': [stale]}
