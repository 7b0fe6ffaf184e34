"""mutate.py OUT [-n PER_FUNC] [-f REGEX]: mutants of the analysed functions, which checks notice them"""
import ast, sys, os, re, random, copy, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.environ.get('V', '/verif')
sys.path.insert(0, V)
from sa.check import *
ck = Checker('X', '/repo', 'quick', 1)
props = {}
for r in collect_refs(ck.proj):
    props.setdefault(r.target, set()).update(r.props)

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
CMP2 = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult, ast.Pow: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}


def sites(fn):
    """(description, mutator) for every place of a function; mutators act on nodes found by position"""
    out = []
    inner = [n for n in ast.walk(fn)]
    skip = set()
    for d in fn.decorator_list:
        if 'jit' in ast.unparse(d) or 'log_with' in ast.unparse(d):
            skip |= set(ast.walk(d))
    for n in inner:
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n.value)
        if isinstance(n, ast.Raise):
            skip |= {x for x in ast.walk(n) if isinstance(x, ast.Constant)}
        for a in ('annotation', 'returns'):
            x = getattr(n, a, None)
            if isinstance(x, ast.AST): skip |= set(ast.walk(x))
    for k, n in enumerate(inner):
        if n in skip: continue
        def add(desc, f, k=k):
            out.append((getattr(inner[k], 'lineno', fn.lineno), desc, k, f))
        if isinstance(n, ast.Compare):
            for j, o in enumerate(n.ops):
                for T in (CMP, CMP2):
                    if type(o) in T:
                        def f(m, j=j, T=T):
                            m.ops[j] = T[type(m.ops[j])]()
                        add('cmp %s->%s' % (type(o).__name__, T[type(o)].__name__), f)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            def f(m):
                m.op = BIN[type(m.op)]()
            add('op %s' % type(n.op).__name__, f)
            if isinstance(n.op, (ast.Sub, ast.Div)):
                def f(m):
                    m.left, m.right = m.right, m.left
                add('swap operands', f)
        if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            def f(m):
                m.op = BIN[type(m.op)]()
            add('aug %s' % type(n.op).__name__, f)
        if isinstance(n, ast.BoolOp):
            def f(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            add('and/or', f)
            for j in range(len(n.values)):
                def f(m, j=j):
                    del m.values[j]
                    if len(m.values) == 1:
                        m.values = m.values * 2
                add('drop operand %d' % j, f)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not (isinstance(n.test, ast.Constant)):
            def f(m):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            add('negate', f)
            def f(m):
                m.test = ast.Constant(True)
            if not isinstance(n, ast.While):
                add('always', f)
            def f(m):
                m.test = ast.Constant(False)
            add('never', f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            def f(m):
                m.op = ast.UAdd()
            add('drop minus', f)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            def f(m):
                m.operand = ast.UnaryOp(ast.Not(), m.operand)
            add('drop not', f)
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                def f(m):
                    m.value = not m.value
                add('flip %s' % n.value, f)
            else:
                def f(m):
                    m.value = m.value + 1
                add('const %r+1' % n.value, f)
                if n.value not in (0,):
                    def f(m):
                        m.value = 0
                    add('const %r->0' % n.value, f)
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and k > 0:
            def f(m):
                m.value = m.value + '_x'
            add('str %r' % n.value[:20], f)
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            def f(m):
                m.args[0], m.args[1] = m.args[1], m.args[0]
            add('swap args', f)
        if isinstance(n, ast.Call):
            for j, kw in enumerate(n.keywords):
                if kw.arg:
                    def f(m, j=j):
                        del m.keywords[j]
                    add('drop keyword %s' % kw.arg, f)
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Continue, ast.Break, ast.Delete, ast.Return)):
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                            continue
                        def f(m, fld=fld, j=j):
                            getattr(m, fld)[j] = ast.Pass()
                        out.append((s.lineno, 'delete ' + ast.unparse(s)[:50], k, f))
                    if j + 1 < len(b) and isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(b[j + 1], (ast.Assign, ast.AugAssign, ast.Expr)) \
                            and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        def f(m, fld=fld, j=j):
                            x = getattr(m, fld)
                            x[j], x[j + 1] = x[j + 1], x[j]
                        out.append((s.lineno, 'swap with next: ' + ast.unparse(s)[:50], k, f))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            others = [a.arg for a in fn.args.args if a.arg not in (n.id, 'self', 'cls')]
            if n.id in [a.arg for a in fn.args.args] and others:
                def f(m, o=others[0]):
                    m.id = o
                add('name %s->%s' % (n.id, others[0]), f)
    return out


def load_functions(tree, mod):
    res = []
    def walk(n, pre):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef):
                res.append((pre + '.' + c.name, c))
                walk(c, pre + '.' + c.name)
            elif isinstance(c, ast.ClassDef):
                walk(c, pre + '.' + c.name)
            else:
                walk(c, pre)
    walk(tree, mod)
    return res


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('-n', type=int, default=8); ap.add_argument('-f', default='.'); ap.add_argument('-s', type=int, default=1); ap.add_argument('-j', type=int, default=7)
    ap.add_argument('-x', default='^$')
    a = ap.parse_args()
    rng = random.Random(a.s)
    jobs = []
    files = sorted({os.path.join('/repo', t.rsplit('.', 1)[0].replace('.', '/')) for t in props})
    for root, _, fs in os.walk('/repo/crowddynamics'):
        for fn in fs:
            if not fn.endswith('.py') or 'tests' in root or fn == '_version.py':
                continue
            p = os.path.join(root, fn)
            mod = p[len('/repo/'):-3].replace('/', '.').replace('.__init__', '')
            tree = ast.parse(open(p).read())
            for q, node in load_functions(tree, mod):
                ps = props.get(q) or props.get(q.rsplit('.', 1)[0])
                if not ps or not re.search(a.f, q) or re.search(a.x, q):
                    continue
                ss = [(j, x) for j, x in enumerate(sites(node))]
                rng.shuffle(ss)
                for j, x in sorted(ss[:a.n]):
                    jobs.append((p, q, j, x[0], x[1], sorted(ps)))
    print(len(jobs), 'mutants', file=sys.stderr)
    out = open(a.out, 'w')
    base = tempfile.mkdtemp(prefix='mu')
    import threading
    local = threading.local()
    cnt = [0]
    def scratch():
        if not hasattr(local, 'd'):
            cnt[0] += 1
            local.d = os.path.join(base, 'w%d' % cnt[0])
            shutil.copytree('/repo', local.d, ignore=shutil.ignore_patterns('.git', 'build', '*.egg-info'))
        return local.d
    def run(job):
        p, q, j, line, desc, ps = job
        d = scratch()
        tree = ast.parse(open(p).read())
        mod = p[len('/repo/'):-3].replace('/', '.').replace('.__init__', '')
        node = dict(load_functions(tree, mod))[q]
        _, _, k, f = sites(node)[j]
        target = [n for n in ast.walk(node)][k]
        f(target)
        ast.fix_missing_locations(tree)
        dst = os.path.join(d, p[len('/repo/'):])
        src = ast.unparse(tree)
        try:
            compile(src, dst, 'exec')
        except SyntaxError:
            return
        open(dst, 'w').write(src)
        res = 'SURVIVED'
        info = ''
        try:
            for pid in ps:
                env = dict(os.environ, VERIF_EVID=os.path.join(d, 'evid'))
                try:
                    r = subprocess.run(['python3', '-m', 'sa.check', pid, '--root', d], cwd=V, env=env, capture_output=True, text=True, timeout=400)
                except subprocess.TimeoutExpired:
                    res = 'TIMEOUT'; continue
                if r.returncode == 1 and 'VIOLATION' in r.stdout:
                    res = 'CAUGHT'; break
                if r.returncode != 0:
                    res = 'ERROR'; info = (r.stderr or r.stdout)[-300:]
                elif 'UNDECIDED' in r.stdout and res == 'SURVIVED':
                    res = 'UNDECIDED'
                    info = re.search(r'UNDECIDED.*', r.stdout).group(0)[-200:]
        finally:
            shutil.copy(p, dst)
        out.write('%s\t%s\t%s:%d\t%s\t%s\t%s\n' % (res, ','.join(ps), q, line, desc, j, info.replace('\n', ' ')))
        out.flush()
    with ThreadPoolExecutor(a.j) as ex:
        list(ex.map(run, jobs))
    shutil.rmtree(base)
main()
