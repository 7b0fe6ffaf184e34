"""Behaviour-preserving rewrites of every function of a copy of the tree (to test that the checks judge behaviour).

    python3 -m tools.refactor STYLE DEST      writes a rewritten copy of /repo to DEST
"""
import ast, os, shutil, subprocess, sys

SKIP = ('_version.py', 'versioneer.py', 'setup.py', 'dodo.py')


def funcs(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            yield n


def local_names(f):
    """names assigned in f itself that no nested scope or global statement touches"""
    st, nested = set(), set()

    def walk(n, top):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                for m in ast.walk(c):
                    if isinstance(m, ast.Name):
                        nested.add(m.id)
                    if isinstance(m, ast.arg):
                        nested.add(m.arg)
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    nested.add(c.name)
                continue
            if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for m in ast.walk(c):
                    if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store):
                        nested.add(m.id)
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                nested.update(c.names)
            if isinstance(c, ast.ExceptHandler) and c.name:
                nested.add(c.name)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names:
                    nested.add((a.asname or a.name).split('.')[0])
            if isinstance(c, ast.Name) and isinstance(c.ctx, ast.Store):
                st.add(c.id)
            walk(c, False)
    for s in f.body:
        walk(ast.Module([s], []), True)
    a = f.args
    ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    return st - nested - ps, st | nested | ps


def own(f, kinds):
    """nodes of f outside nested scopes"""
    out = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, kinds):
                out.append(c)
            walk(c)
    for s in f.body:
        walk(ast.Module([s], []))
    return out


def blocks(f):
    """every statement list of f outside nested functions"""
    out = []

    def walk(n):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        walk(s)
        for h in getattr(n, 'handlers', ()):
            walk(h)
    walk(f)
    return out


def P(src):
    return ast.parse(src).body


def E(src):
    return ast.parse(src, mode='eval').body


# ------------------------------------------------------------------- styles
def rename(tree):
    for f in funcs(tree):
        ren, _ = local_names(f)
        for n in own(f, ast.Name):
            if n.id in ren:
                n.id = n.id + '_v'


def invert(tree):
    class V(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if n.orelse:
                n.test = ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body
            return n

        def visit_IfExp(self, n):
            self.generic_visit(n)
            return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    V().visit(tree)


def elsenest(tree):
    """if c: ... return; rest  ->  if c: ... return else: rest"""
    for f in funcs(tree):
        for b in blocks(f):
            for i, s in enumerate(b[:-1]):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and not any(isinstance(x, ast.FunctionDef) for x in b[i + 1:]):
                    s.orelse = b[i + 1:]
                    del b[i + 1:]
                    break


def guard(tree):
    """the body of a loop ending in an if -> continue unless"""
    for f in funcs(tree):
        for n in own(f, (ast.For, ast.While)):
            s = n.body[-1]
            if isinstance(s, ast.If) and not s.orelse:
                n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body


def demorgan(tree):
    class V(ast.NodeTransformer):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return n if not self.ctx else ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.values]))

        ctx = False

        def test(self, n):
            old, self.ctx = self.ctx, True
            n.test = self.visit(n.test)
            self.ctx = False
            for fld in ('body', 'orelse'):
                b = getattr(n, fld)
                if isinstance(b, list):
                    setattr(n, fld, [self.visit(x) for x in b])
            self.ctx = old
            return n
        visit_If = test
        visit_While = test
    V().visit(tree)


def swapcmp(tree):
    sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    class V(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in sw:
                return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
            if len(n.ops) == 2 and all(type(o) in sw for o in n.ops) and isinstance(n.comparators[0], (ast.Name, ast.Attribute, ast.Constant)):
                return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]), ast.Compare(n.comparators[0], [n.ops[1]], [n.comparators[1]])])
            return n
    V().visit(tree)


class Tmp:
    k = 0

    @classmethod
    def new(cls, p='tmp'):
        cls.k += 1
        return '%s_%d' % (p, cls.k)


def temps(tree):
    """call arguments and operands that are calls get names first (evaluation order kept)"""
    for f in funcs(tree):
        if any(isinstance(d, ast.Name) and d.id in ('generated_jit', 'observe', 'default', 'validate') for d in f.decorator_list):
            pass
        for b in blocks(f):
            out = []
            for s in b:
                if isinstance(s, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign)) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Yield, ast.YieldFrom, ast.Name)):
                    if not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(s.value)):
                        v = s.value
                        pre = []
                        if isinstance(v, ast.Call) and not any(isinstance(a, ast.Starred) for a in v.args) and isinstance(v.func, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Call) for x in ast.walk(v.func)) \
                                and not (isinstance(v.func, ast.Name) and v.func.id in ('super', 'isinstance', 'locals', 'overload')):
                            for j, a in enumerate(v.args):
                                if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript, ast.Attribute)):
                                    nm = Tmp.new()
                                    pre.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                                    v.args[j] = ast.Name(nm, ast.Load())
                        elif isinstance(v, ast.BinOp):
                            for side in ('left', 'right'):
                                a = getattr(v, side)
                                if isinstance(a, (ast.Call, ast.BinOp)):
                                    nm = Tmp.new()
                                    pre.append(ast.Assign([ast.Name(nm, ast.Store())], a))
                                    setattr(v, side, ast.Name(nm, ast.Load()))
                        if pre and isinstance(s, ast.AugAssign):
                            pass
                        out.extend(pre)
                        if isinstance(s, ast.Return):
                            nm = Tmp.new('result')
                            out.append(ast.Assign([ast.Name(nm, ast.Store())], v))
                            s.value = ast.Name(nm, ast.Load())
                out.append(s)
            b[:] = out


def whiles(tree):
    """for i in range(...) -> while"""
    for f in funcs(tree):
        for b in blocks(f):
            out = []
            for s in b:
                if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) \
                        and s.iter.func.id == 'range' and len(s.iter.args) <= 2 and not any(isinstance(x, ast.Continue) for x in ast.walk(s)) \
                        and not any(isinstance(x, ast.Name) and x.id == s.target.id and isinstance(x.ctx, ast.Store) for st in s.body for x in ast.walk(st)):
                    a = s.iter.args
                    lo = a[0] if len(a) == 2 else ast.Constant(0)
                    hi = a[-1]
                    c, e = Tmp.new('count'), Tmp.new('end')
                    out.append(ast.Assign([ast.Name(c, ast.Store())], lo))
                    out.append(ast.Assign([ast.Name(e, ast.Store())], hi))
                    w = ast.While(E('%s < %s' % (c, e)), [ast.Assign([s.target], ast.Name(c, ast.Load()))] + s.body + P('%s += 1' % c), [])
                    out.append(w)
                else:
                    out.append(s)
            b[:] = out


def comps(tree):
    """x = [e for t in it if c] / return [...] -> loop with append"""
    for f in funcs(tree):
        for b in blocks(f):
            out = []
            for s in b:
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                    g = s.value.generators[0]
                    nm = Tmp.new('items')
                    ren = {x.id: x.id + '_c' for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                    for part in [g.target, s.value.elt] + g.ifs:
                        for x in ast.walk(part):
                            if isinstance(x, ast.Name) and x.id in ren:
                                x.id = ren[x.id]
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    out.append(ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())))
                    out.append(ast.For(g.target, g.iter, body, []))
                    s.value = ast.Name(nm, ast.Load())
                out.append(s)
            b[:] = out


def nestif(tree):
    """if a and b: X (no else) -> if a: if b: X"""
    for f in funcs(tree):
        for n in own(f, ast.If):
            if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                vs = n.test.values
                inner = ast.If(vs[-1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:]), n.body, [])
                n.test, n.body = vs[0], [inner]


def helper(tree):
    """the body of every plain module-level function and method moves to a helper that it calls"""
    def plain(f):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
            return False
        if any(isinstance(x, ast.Name) and x.id in ('super', '__class__') for x in ast.walk(f)):
            return False
        a = f.args
        if a.vararg or a.kwarg or a.posonlyargs or a.kwonlyargs:
            return False
        for d in f.decorator_list:
            s = ast.unparse(d)
            if 'jit' in s and 'generated' not in s:
                continue
            if s.startswith(('observe', 'default', 'validate', 'property', 'contextmanager', 'staticmethod', 'classmethod', 'log_with')):
                continue
            return False
        return True
    for m in [tree] + [c for c in tree.body if isinstance(c, ast.ClassDef)]:
        if not isinstance(m, (ast.Module, ast.ClassDef)):
            continue
        out = []
        for f in m.body:
            if isinstance(f, ast.FunctionDef) and plain(f):
                decs = [ast.unparse(d) for d in f.decorator_list]
                doc = []
                body = f.body
                if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                    doc, body = body[:1], body[1:]
                if not body or len(body) == 1 and isinstance(body[0], ast.Pass):
                    out.append(f)
                    continue
                nm = '_' + f.name.strip('_') + '_body'
                args = [x.arg for x in f.args.args]
                hd = []
                if m is tree:
                    hd = [E('numba.jit(nopython=True, nogil=True)')] if any('jit' in d for d in decs) else []
                    call = ast.Call(ast.Name(nm, ast.Load()), [ast.Name(x, ast.Load()) for x in args], [])
                else:
                    if 'staticmethod' in decs or 'classmethod' in decs:
                        out.append(f)
                        continue
                    call = ast.Call(ast.Attribute(ast.Name(args[0], ast.Load()), nm, ast.Load()), [ast.Name(x, ast.Load()) for x in args[1:]], [])
                h = ast.FunctionDef(name=nm, args=ast.arguments([], [ast.arg(x) for x in args], None, [], [], None, []), body=body, decorator_list=hd, returns=None, type_params=[])
                f.body = doc + [ast.Return(call)]
                out.append(h)
            out.append(f)
        m.body = out


def augment(tree):
    """x[k] += e  ->  x[k] = x[k] + e for subscripts (names untouched: arrays would be rebound)"""
    class V(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Subscript) and not any(isinstance(x, ast.Call) for x in ast.walk(n.target)):
                l = ast.parse(ast.unparse(n.target), mode='eval').body
                return ast.Assign([n.target], ast.BinOp(l, n.op, n.value))
            return n
    V().visit(tree)


def commute(tree):
    """a * b -> b * a, a + b -> b + a where both sides are arithmetic without calls"""
    ok = (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Load, ast.operator, ast.unaryop)

    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, (ast.Add, ast.Mult)) and not any(isinstance(x, ast.Constant) and isinstance(x.value, (str, bytes)) for x in ast.walk(n)) \
                    and not any(isinstance(x, (ast.List, ast.Tuple)) for x in ast.walk(n)):
                if isinstance(n.op, ast.Mult) or all(isinstance(x, ok) for x in ast.walk(n)) and not any(isinstance(x, ast.Name) and ('name' in x.id or 'path' in x.id or 'list' in x.id or 'id_' in x.id or 'str' in x.id) for x in ast.walk(n)):
                    return ast.BinOp(n.right, n.op, n.left)
            return n
    for f in funcs(tree):
        V().visit(f)


def ternary(tree):
    """if c: x = a else: x = b  <->  x = a if c else b"""
    for f in funcs(tree):
        for b in blocks(f):
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
                    x, y = s.body[0], s.orelse[0]
                    if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and ast.dump(ast.Module([ast.Expr(x.targets[0])], [])) == ast.dump(ast.Module([ast.Expr(y.targets[0])], [])) and len(x.targets) == 1:
                        b[i] = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
                    elif isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value and y.value:
                        b[i] = ast.Return(ast.IfExp(s.test, x.value, y.value))
                elif isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                    b[i] = ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(s.targets, s.value.orelse)])
                elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                    b[i] = ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])


def flags(tree):
    """return inside nothing but at the end: single exit with a result variable"""
    for f in funcs(tree):
        rs = own(f, ast.Return)
        if len(rs) < 2 or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(f, (ast.Yield, ast.YieldFrom))):
            continue
        elsenest(ast.Module([f], []))
        # all returns in tail position?
        def tail(b):
            for s in b[:-1]:
                if any(isinstance(x, ast.Return) for x in ast.walk(s) if not isinstance(s, ast.FunctionDef)):
                    return False
            s = b[-1]
            if isinstance(s, ast.If):
                return tail(s.body) and (not s.orelse or tail(s.orelse))
            if isinstance(s, ast.Return):
                return s.value is not None
            return isinstance(s, ast.Raise)
        def full(b):
            s = b[-1]
            return isinstance(s, (ast.Return, ast.Raise)) or isinstance(s, ast.If) and bool(s.orelse) and full(s.body) and full(s.orelse)
        if not (tail(f.body) and full(f.body)):
            continue
        def rew(b):
            s = b[-1]
            if isinstance(s, ast.If):
                rew(s.body)
                rew(s.orelse)
            elif isinstance(s, ast.Return):
                b[-1] = ast.Assign([ast.Name('outcome', ast.Store())], s.value)
        rew(f.body)
        f.body.append(ast.Return(ast.Name('outcome', ast.Load())))


def noop(tree):
    for f in funcs(tree):
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(k, ast.Pass())
        f.body.insert(k, P('unused_local = 0')[0])


def fstr(tree):
    """'..{}..'.format(a) -> f-string for simple names"""
    class V(ast.NodeTransformer):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and not n.args and n.keywords and all(k.arg and isinstance(k.value, ast.Name) for k in n.keywords):
                s = n.func.value.value
                for k in n.keywords:
                    s = s.replace('{%s}' % k.arg, '{%s}' % k.value.id).replace('{%s:' % k.arg, '{%s:' % k.value.id)
                try:
                    return E('f' + repr(s))
                except SyntaxError:
                    return n
            return n
    V().visit(tree)


def idxloop(tree):
    """for x in NAME (a local array) -> for k in range(len(NAME)); only in jitted functions"""
    for f in funcs(tree):
        if not any('jit' in ast.unparse(d) for d in f.decorator_list):
            continue
        for n in own(f, ast.For):
            if isinstance(n.iter, ast.Name):
                k = Tmp.new('k')
                n.body.insert(0, ast.Assign([n.target], E('%s[%s]' % (n.iter.id, k))))
                n.target = ast.Name(k, ast.Store())
                n.iter = E('range(len(%s))' % n.iter.id)


def unpack(tree):
    """a, b = x, y -> temporaries one at a time"""
    for f in funcs(tree):
        for b in blocks(f):
            out = []
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.value.elts) == len(s.targets[0].elts):
                    ns = [Tmp.new() for _ in s.value.elts]
                    for nm, v in zip(ns, s.value.elts):
                        out.append(ast.Assign([ast.Name(nm, ast.Store())], v))
                    for nm, tg in zip(ns, s.targets[0].elts):
                        out.append(ast.Assign([tg], ast.Name(nm, ast.Load())))
                else:
                    out.append(s)
            b[:] = out


def arith(tree):
    """a - b -> a + -b; -x -> -1 * x; x ** 2 -> x * x for names; x / c -> 1 / c * x"""
    class V(ast.NodeTransformer):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Sub) and not isinstance(n.right, ast.Constant):
                return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
            if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute, ast.Subscript)):
                return ast.BinOp(n.left, ast.Mult(), n.left)
            return n
    for f in funcs(tree):
        if any('jit' in ast.unparse(d) for d in f.decorator_list):
            V().visit(f)


STYLES = dict(rename=rename, invert=invert, elsenest=elsenest, guard=guard, demorgan=demorgan, swapcmp=swapcmp, temps=temps, whiles=whiles, comps=comps, nestif=nestif,
              helper=helper, augment=augment, commute=commute, ternary=ternary, flags=flags, noop=noop, fstr=fstr, idxloop=idxloop, unpack=unpack, arith=arith)


def main(style, dest):
    if not os.path.exists(dest):
        subprocess.check_call(['git', 'clone', '-q', '/repo', dest])
    base = os.path.join(dest, 'crowddynamics')
    n = 0
    for d, _, fs in os.walk(base):
        if 'tests' in d:
            continue
        for f in fs:
            if f.endswith('.py') and f not in SKIP:
                p = os.path.join(d, f)
                tree = ast.parse(open(p).read())
                before = ast.dump(tree)
                for s in style.split('+'):
                    STYLES[s](tree)
                ast.fix_missing_locations(tree)
                if ast.dump(tree) != before:
                    n += 1
                    open(p, 'w').write(ast.unparse(tree) + '\n')
                    compile(open(p).read(), p, 'exec')
    return n


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        print(' '.join(STYLES))
    else:
        print(sys.argv[1], main(sys.argv[1], sys.argv[2]), 'files rewritten')
