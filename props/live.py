"""What is asked again and again has to be read again and again: an attribute that steps may replace while a loop runs
is read inside that loop, not once before it."""
import ast

# (property, class, method that loops, method the loop runs, attributes read every time round)
LOOPS = [('C06', 'crowddynamics.simulation.base.SimulationBase', 'run', 'update', ('exit_condition',))]


def self_name(f):
    return f.node.args.args[0].arg if f.node.args.args else None


def own(f, nodes):
    """(attributes of self loaded, whether self is used in any other way)"""
    me, out, other = self_name(f), set(), False
    inner = {id(n.value) for x in nodes for n in ast.walk(x) if isinstance(n, ast.Attribute)}
    for x in nodes:
        for n in ast.walk(x):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('getattr', 'vars', 'super', 'partial'):
                other = True
            elif isinstance(n, (ast.FunctionDef, ast.Lambda)):
                other = True
    return out, other


def reads(proj, cls, f, nodes, attr, seen):
    """whether running the nodes may read an attribute of self: True, False, None when it cannot be told"""
    got, other = own(f, nodes)
    if attr in got:
        return True
    res = None if other else False
    for name in got - seen:
        m = proj.find_method(cls, name)
        if m is not None:
            r = reads(proj, cls, m, m.node.body, attr, seen | {name})
            if r:
                return True
            if r is None:
                res = None
    # local functions and names that may hold one
    for x in nodes:
        for n in ast.walk(x):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id not in ('iter', 'next', 'bool', 'callable', 'isinstance'):
                loc = [d for d in ast.walk(f.node) if isinstance(d, (ast.FunctionDef, ast.Lambda)) and d is not f.node]
                if loc and not (isinstance(n.func, ast.Name) and any(
                        isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.func.id for t in s.targets) and
                        isinstance(s.value, ast.Attribute) for s in ast.walk(f.node))):
                    res = None
    return res


def rule(ck):
    for pid, c, method, step, attrs in LOOPS:
        try:
            cls = ck.proj.cls(c)
        except Exception:
            cls = None
        f = cls and ck.proj.find_method(cls, method)
        if not f:
            ck.fact('asked every time', c, None, 'construct not found', key='live %s %s' % (c, method))
            continue
        loops = [n for n in ast.walk(f.node) if isinstance(n, (ast.While, ast.For)) and
                 any(isinstance(x, ast.Attribute) and x.attr == step for b in n.body for x in ast.walk(b))]
        for attr in attrs:
            if not loops:
                ok = None
            else:
                rs = [reads(ck.proj, cls, f, ([n.test] if isinstance(n, ast.While) else []) + n.body, attr, {step}) for n in loops]
                ok = True if all(r is True for r in rs) else False if any(r is False for r in rs) and \
                    not any(isinstance(n, ast.For) and any(isinstance(x, ast.Call) for x in ast.walk(n.iter)) for n in loops) else None
            ck.fact('%s is read every time round' % attr, ck.where(f), ok,
                    'the loop that runs %s never reads %s again: what a step puts there is not seen' % (step, attr), key='live %s %s' % (c, attr))


RULES = {'C06': [rule]}
