"""Check harness: decides one property on the current tree of /repo.

  python3 -m sa.check C11 [--root /repo]

An *agreement obligation* pairs a function of the tree with its reference
definition in /verif/specs (decorator ``ref``); both are turned into gated value
graphs and compared.  A *structural obligation* is a rule of /verif/props.
Nothing of the tree is imported or executed.
"""
import ast
import importlib
import json
import os
import sys
import time

from . import terms as t
from . import interp as ip
from .project import Project, AnalysisBroken, dotted, FuncDef
from .interp import Interp, State, Unsupported, Budget
from .compare import compare, OWN
from . import compare as comparing

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(HERE, 'specs')
EVID = os.environ.get('VERIF_EVID') or os.path.join(HERE, 'evidence')


# seconds one obligation, and all of one property, may take
OBLIGATION_S = {'quick': 150, 'thorough': 400}
SEARCH_S = {'quick': 30, 'thorough': 300}
PROCESS_S = {'quick': 500, 'thorough': 3000}


class Ref:
    """a reference definition and what it defines"""

    def __init__(self, func, props, target, opts):
        self.func, self.props, self.target, self.opts = func, props, target, opts

    @property
    def rule(self):
        return self.opts.get('rule') or (ast.get_docstring(self.func.node) or '').strip().split('\n\n')[0].replace('\n', ' ')

    @property
    def params(self):
        a = self.func.node.args
        out = []
        for x in a.posonlyargs + a.args:
            k = x.annotation.value if isinstance(x.annotation, ast.Constant) else 'any'
            out.append((x.arg, k))
        if a.vararg:
            out.append(('*' + a.vararg.arg, 'any'))
        if a.kwarg:
            out.append(('**' + a.kwarg.arg, 'any'))
        return out


def collect_refs(proj):
    out = []
    for mn, m in sorted(proj.modules.items()):
        if not mn.startswith('specs.'):
            continue
        for nm, (k, p) in m.names.items():
            if k != 'func':
                continue
            for d in p.node.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'ref':
                    props = d.args[0].value.split()
                    target = d.args[1].value
                    opts = {kw.arg: ast.literal_eval(kw.value) for kw in d.keywords}
                    out.append(Ref(p, props, target, opts))
    return out


def defaults_of(node):
    a = node.args
    ps = a.posonlyargs + a.args
    d = dict(zip([p.arg for p in ps[len(ps) - len(a.defaults):]], a.defaults))
    d.update({p.arg: v for p, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d


def default_value(proj, n, mod, depth=0):
    """('const', value) of a constant expression, ('name', path) of a class or function, ('src', text) otherwise"""
    try:
        return 'const', const_of(proj, n, mod, 0)
    except ValueError:
        pass
    try:
        v = Interp(proj).deep(State(), Interp(proj).ev(n, State(), ip.Frame(0, mod, None, None, None, None, '<default>')))
        return 'name', t.show(v)
    except Exception:
        return 'src', ast.unparse(n)


def const_of(proj, n, mod, depth):
    import operator
    if depth > 20:
        raise ValueError
    if isinstance(n, ast.Constant):
        v = n.value
        return float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v
    if isinstance(n, (ast.Tuple, ast.List)):
        return tuple(const_of(proj, x, mod, depth + 1) for x in n.elts)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = const_of(proj, n.operand, mod, depth + 1)
        if isinstance(v, float):
            return -v
    if isinstance(n, ast.BinOp):
        a, b = const_of(proj, n.left, mod, depth + 1), const_of(proj, n.right, mod, depth + 1)
        op = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.Pow: operator.pow}.get(type(n.op))
        if op and isinstance(a, float) and isinstance(b, float):
            try:
                return float('%.12g' % op(a, b))
            except (ArithmeticError, TypeError):
                raise ValueError
    if isinstance(n, ast.Attribute) and n.attr == 'pi' and isinstance(n.value, ast.Name):
        return float('%.12g' % 3.141592653589793)
    if isinstance(n, ast.Name):
        k = mod.names.get(n.id)
        if k is not None and k[0] == 'const' and isinstance(k[1], ast.AST):
            return const_of(proj, k[1], mod, depth + 1)
    raise ValueError


def exc_name(v):
    return v


def mem_key(k):
    return k[0] + ':' + '/'.join(t.show(x) if isinstance(x, t.T) else str(x) for x in k[1:])


ST = 'crowddynamics.core.steering.'
# functions with obligations of their own that callers treat as given
SUMMARISED = {
    'maps': [ST + 'quickest_path.shortest_path', ST + 'obstacle_handling.obstacle_handling', ST + 'obstacle_handling.direction_map_obstacles'],
}


def summary(I, st, f, args, kw):
    """call of a function with obligations of its own: an uninterpreted function of its bound arguments"""
    fid = I.newfid()
    I.bind_args(st, f, args, kw, fid)
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return t.app('call:' + f.qual.rsplit('.', 1)[1], *[I.deep(st, st.m[('v', fid, n)]) for n in names])


class Run:
    """abstract execution of one function on symbolic inputs"""

    def __init__(self, proj, func, params, opts, consts=None):
        self.I = I = Interp(proj, asserts=opts.get('asserts', False), attrkinds=opts.get('attrs'), budget=opts.get('budget', 400000),
                                opaque={q: summary for g in opts.get('opaque', '').split() for q in SUMMARISED.get(g, (g,))})
        names = opts.get('same_len', '').split()
        t.EQLEN.clear()
        t.EQLEN.update({nm: names[0] for nm in names[1:]})
        st = State()
        args = []
        self.syms = {}
        kw = {}
        for nm, kind in params:
            if nm.startswith('**'):
                kw['**'] = t.sym(nm[2:])
            elif nm.startswith('*'):
                args.append(t.mk('star', t.sym(nm[1:])))
            else:
                args.append(make_arg(I, st, nm, kind))
        mode = None if func.has_deco('generated_jit') else 'toplevel'
        I.fresh = 'again' in opts
        if 'history' in opts:
            # a new object, used before: what it met then has been replaced since
            I.fresh = True
            I.call_func(st, func, args, kw, mode=mode)
            for path in opts['history'].split():
                o = args[0]
                *front, last = path.split('.')
                for a in front:
                    o = I.getattr(st, o, a)
                I.setattr(st, o, last, I.typed(st, t.sym('new ' + last), (opts.get('attrs') or {}).get(last)))
                cls = I.user_class(o)
                for m in observing(proj, cls, last) if cls is not None else ():
                    I.call_func(st, m, [o, make_arg(I, st, 'change', 'change:' + last)][:len(m.node.args.args)], {})
        r = I.call_func(st, func, args, kw, mode=mode)
        self.st = st
        self.obs = self.observe(st, r, args, opts)

    def observe(self, st, r, args, opts):
        I = self.I
        what = opts.get('observe', 'ret mem trace raise').split()
        obs = {}
        raised = list(st.raised)
        for i, (c, s_, e) in enumerate(raised):
            if c is t.TRUE:
                # nothing after this is ever reached
                raised, st = raised[:i + 1], s_
                break
        if 'ret' in what:
            v = I.deep(st, r)
            if 'raise' in what:
                before = t.FALSE
                for c, s_, e in reversed(raised):
                    v = t.ite(c, t.app('exc', e if isinstance(e, t.T) else t.s(str(e))), v)
            obs['result'] = v
        if 'mem' in what:
            for k, v in list(st.m.items()):
                if k[0] in ('p', 'col', 'attr', 'item'):
                    if len(k) > 2 and isinstance(k[2], str) and k[2] in opts.get('ignore', ()):
                        continue
                    if k[0] == 'attr' and opts.get('attrsonly') and k[2] not in opts['attrsonly']:
                        continue
                    v0 = ip._inits.get(k)
                    if v0 is None:
                        v0 = ip.init_of(k)
                    if v0 is v:
                        continue
                    if k[0] == 'item' or (k[0] == 'attr' and k[1].op not in ('sym', 'attr')):
                        # locations named by values: a set of (location, content) pairs, compared as values
                        nm = 'final items' if k[0] == 'item' else 'final ' + str(k[2])
                        loc = t.tup(*[x if isinstance(x, t.T) else t.s(str(x)) for x in k[1:]])
                        obs[nm] = t.add(obs.get(nm, t.num(0)), t.app('stored', loc, I.deep(st, v), I.deep(st, v0)))
                        continue
                    obs['final ' + mem_key(k)] = I.deep(st, v)
        if 'trace' in what:
            tr = t.mk('trace', *[e for e in st.tr])
            tr = deep_trace(tr)
            for c, s_, e in reversed(raised):
                if s_.tr is not st.tr and s_.tr != st.tr:
                    tr = t.mk('trace', t.mk('tif', c, t.mk('trace', *s_.tr), tr))
            if tr.args:
                obs['effects'] = tr
        return obs


def observing(proj, cls, trait):
    """the methods of a class hooked to changes of a trait"""
    out, seen = [], set()
    for k in proj.mro(cls):
        if isinstance(k, str):
            continue
        for name, m in k.methods.items():
            if name in seen:
                continue
            seen.add(name)
            if any(isinstance(d, ast.Call) and ast.unparse(d.func).rsplit('.', 1)[-1] == 'observe' and
                   any(isinstance(c, ast.Constant) and c.value == trait for a in d.args for c in ast.walk(a)) for d in m.node.decorator_list):
                out.append(m)
    return out


def deep_trace(x):
    return x


def make_arg(I, st, nm, kind):
    if kind == 'any':
        return t.sym(nm)
    if kind.startswith('obj:'):
        return t.sym(nm, kind)
    if kind.startswith('change:'):
        # what an observer is told when a trait changes
        return I.alloc(st, t.mk('dict', (t.s('name'), t.s(kind[7:])), (t.s('old'), t.sym('old')), (t.s('new'), t.sym('new')), (t.s('owner'), t.sym('owner')), (t.s('type'), t.s('change'))))
    if kind.startswith('tup:'):
        return t.tup(*[make_arg(I, st, '%s%d' % (nm, i), k) for i, k in enumerate(kind[4:].split(','))])
    if kind.startswith('const:'):
        return const(ast.literal_eval(kind[6:]))
    return I.typed(st, t.sym(nm), kind)


def const(v):
    if v is None:
        return t.NONE
    if isinstance(v, bool):
        return t.TRUE if v else t.FALSE
    if isinstance(v, (int, float)):
        return t.num(v)
    if isinstance(v, str):
        return t.s(v)
    if isinstance(v, tuple):
        return t.tup(*[const(x) for x in v])
    raise ValueError(v)


class Obligation:
    def __init__(self, rule, where, status, detail='', info=None):
        self.rule, self.where, self.status, self.detail, self.info = rule, where, status, detail, info or {}
        self.key = None

    def as_dict(self):
        d = {'rule': self.rule, 'construct': self.where, 'status': self.status}
        if self.detail:
            d['detail'] = self.detail
        if self.status == 'violated':
            d['key'] = self.key
        return d


class Checker:
    def __init__(self, pid, root, tier, seed):
        self.pid, self.root, self.tier, self.seed = pid, root, tier, seed
        self.proj = Project(root, specs=SPECS)
        self.t0 = time.time()
        OWN.update(m for mn, m in self.methods())
        self.obls = []
        self.analysed = set()
        self.stats = {'calls': 0, 'loops': 0, 'steps': 0, 'interpretations': 0, 'boundary_tests': 0}

    def methods(self):
        for mn, m in self.proj.modules.items():
            if not mn.startswith('specs.'):
                for k, c in m.names.values():
                    if k == 'class':
                        for x in c.methods:
                            yield c.name, x

    # ---- locations
    def where(self, f, node=None):
        node = node or f.node
        return '%s:%d %s' % (os.path.relpath(f.mod.path, self.root), getattr(node, 'lineno', 0), f.qual)

    # ---- agreement
    def agree(self, ref):
        for v in [{}] + list(ref.opts.get('also', ())):
            self.agree1(ref, [(n, v.get(n, k)) for n, k in ref.params], v)
            if self.obls[-1].status in ('violated', 'undecided'):
                # definitions may leave a choice: any of the alternatives will do
                for nm in ref.opts.get('alt', '').split():
                    first = self.obls.pop()
                    self.agree1(Ref(self.proj.modules[ref.func.mod.name].names[nm][1], ref.props, ref.target, {**ref.opts, 'rule': ref.rule}), [(n, v.get(n, k)) for n, k in ref.params], v)
                    if self.obls[-1].status in ('proved', 'agreed'):
                        self.obls[-1].key = first.key
                        break
                    self.obls[-1] = first
            if self.obls[-1].status == 'violated' and 'found' in ref.opts:
                # the defect as it was found (known_findings.json): any other difference keeps the plain key
                nm, n = ref.opts['found'], len(self.obls)
                self.agree1(Ref(self.proj.modules[ref.func.mod.name].names[nm][1], ref.props, ref.target, {**ref.opts, 'rule': ref.rule}), [(x, v.get(x, k)) for x, k in ref.params], v)
                same = all(o.status in ('proved', 'agreed') for o in self.obls[n:])
                del self.obls[n:]
                if same:
                    self.obls[-1].key += ' as ' + nm

        if 'again' in ref.opts and self.obls[-1].status in ('proved', 'agreed', 'undecided'):
            # the second use of an object: nothing of the first is held on to
            first = self.obls[-1]
            opts = {k: v for k, v in ref.opts.items() if k not in ('also', 'found', 'again')}
            opts.update(history=ref.opts['again'], rule='agrees with its definition when used again')
            self.agree1(Ref(ref.func, ref.props, ref.target, opts), ref.params, {})
            self.obls[-1].key += ' again'
            if first.status == 'undecided' and self.obls[-1].status == 'undecided':
                self.obls.pop()
        self.defaults(ref)

    def defaults(self, ref):
        """arguments the definition gives a default to are left out by callers: the code has to give them the same"""
        want = defaults_of(ref.func.node)
        if not want:
            return
        try:
            f = self.proj.func(ref.target)
        except AnalysisBroken:
            return
        have = defaults_of(f.node)
        for n, e in want.items():
            if n not in have:
                ok, d = False, 'argument %s has no default, definition: %s' % (n, ast.unparse(e))
            else:
                a, b = [default_value(self.proj, x, m) for x, m in ((have[n], f.mod), (e, ref.func.mod))]
                # (nothing may be said in several ways)
                ok = True if a == b else None if 'src' in (a[0], b[0]) or None in (a[1], b[1]) else False
                d = 'argument %s defaults to %s, definition: %s' % (n, ast.unparse(have[n]), ast.unparse(e))
            self.fact('arguments left out have the value of the definition', self.where(f), ok, d, key='default %s %s' % (ref.func.qual, n))

    def agree1(self, ref, params, variant):
        left = PROCESS_S[self.tier] - (time.time() - self.t0)
        t.set_deadline(max(2, min(OBLIGATION_S[self.tier], left)), SEARCH_S[self.tier])
        try:
            self.agree2(ref, params, variant)
        except t.OutOfTime:
            t.clear_deadline()
            o = Obligation(ref.rule, ref.target, 'undecided', 'out of time')
            o.key = 'agree ' + ref.func.qual
            self.obls.append(o)
        finally:
            t.clear_deadline()

    def agree2(self, ref, params, variant):
        try:
            f = self.proj.func(ref.target)
        except AnalysisBroken:
            if not ref.opts.get('optional'):
                o = Obligation(ref.rule or 'agrees with its definition', ref.target, 'undecided', 'construct not found')
                o.key = 'agree ' + ref.func.qual
                self.obls.append(o)
            return
        rule = ref.rule or 'agrees with its definition'
        where = self.where(self.proj.func(ref.opts['at']) if 'at' in ref.opts else f) + (' (%s)' % ', '.join('%s: %s' % kv for kv in sorted(variant.items())) if variant else '')
        base = self.seed * 1000003 + sum(map(ord, ref.target))
        rounds, budget, steps = (24, 3000, 1200000) if self.tier == 'quick' else (120, 30000, 20000000)
        try:
            spec = Run(self.proj, ref.func, params, ref.opts)
        except (Unsupported, Budget) as e:
            raise AnalysisBroken('definition %s: %s %s' % (ref.func.qual, type(e).__name__, e))
        try:
            code = Run(self.proj, f, params, ref.opts)
        except Exception as e:
            self.obls.append(Obligation(rule, where, 'undecided', '%s: %s' % (type(e).__name__, e)))
            return
        self.note(code.I)
        co, so = dict(code.obs), dict(spec.obs)
        left = self.unseen(code, co, so)
        cons = None
        pre = ref.opts.get('pre')
        for o in list(co.keys() - so.keys()):
            so[o] = initial(code, o)
        for o in list(so.keys() - co.keys()):
            co[o] = initial(spec, o)
        co = {k: v for k, v in co.items() if v is not None and so.get(k) is not None or k in co}
        if pre:
            pf = self.proj.modules[ref.func.mod.name].names[pre][1]
            I2 = Interp(self.proj, attrkinds=ref.opts.get('attrs'))
            st = State()
            args = [make_arg(I2, st, nm, kind) for nm, kind in params]
            pt = I2.truth(st, I2.call_func(st, pf, args, {}, mode='toplevel'))
            cons = lambda e: e.truthv(e.ev(pt, {}))
        try:
            v, info = compare(co, so, seed=base, rounds=rounds, budget=budget, constrain=cons, steps=steps)
            if ref.opts.get('tiny') and v.status == 'EQF':
                with comparing.tiny():
                    w, more = compare(co, so, seed=base + 1, rounds=rounds, budget=0, constrain=cons, steps=steps)
                info['interpretations'] += more['interpretations']
                if w.status == 'NEQ':
                    v = w
        except Exception as e:
            self.obls.append(Obligation(rule, where, 'undecided', 'comparison failed: %s: %s' % (type(e).__name__, e)))
            return
        self.stats['interpretations'] += info['interpretations']
        self.stats['boundary_tests'] += info['tests']
        status = {'EQ': 'proved', 'EQF': 'agreed', 'NEQ': 'violated', 'UNK': 'undecided'}[v.status]
        d = v.detail
        if left and status in ('proved', 'agreed'):
            status, d = 'undecided', 'attributes unknown to the definitions are written here and read elsewhere: ' + ', '.join(left)
        if code.I.opaques and status in ('proved', 'agreed'):
            # something was observed that the analysis cannot look into
            status, d = 'undecided', 'opaque values observed: %s' % ', '.join(sorted(set(code.I.opaques)))
        if d:
            d = 'definition specs/%s: %s' % (ref.func.qual[6:], d)
        o = Obligation(rule, where, status, d, info)
        o.key = 'agree ' + ref.func.qual
        self.obls.append(o)

    def unseen(self, code, co, so):
        """drops what is kept under names no definition knows: nobody sees it, except through the functions that
        read it.  Returns the names read by functions that were not part of this run"""
        left = []
        for o in list(co):
            if not o.startswith('final attr:') or o in so:
                continue
            nm = o.rsplit('/', 1)[-1]
            if nm in self.proj.known_names():
                continue
            del co[o]
            ran = {(path, ln) for path, q, ln in code.I.funcs}
            if any((f.mod.path, f.node.lineno) not in ran for f in self.proj.readers(nm)):
                left.append(nm)
        return sorted(set(left))

    def note(self, I):
        for path, q, ln in I.funcs:
            if path.startswith(self.root):
                self.analysed.add('%s:%d %s' % (os.path.relpath(path, self.root), ln, q))
        self.stats['calls'] += I.calls
        self.stats['loops'] += I.loops
        self.stats['steps'] += I.steps

    # ---- structural
    def fact(self, rule, where, ok, detail='', key=None):
        """ok: True / False / None (cannot tell)"""
        st = {True: 'proved', False: 'violated', None: 'undecided'}[ok]
        o = Obligation(rule, where, st, detail if ok is not True else '')
        o.key = key or rule
        self.obls.append(o)
        return ok


def initial(run, name):
    """initial content of the location behind an observable only one side touched"""
    if name == 'effects':
        return t.mk('trace')
    if name == 'result':
        return t.NONE
    if name == 'final items':
        return t.num(0)
    for k in list(ip._inits):
        if k[0] in ('p', 'col', 'attr', 'item') and 'final ' + mem_key(k) == name:
            return ip._inits[k]
    return t.num(0) if name.startswith('final ') and ':' not in name else None


def load_known():
    path = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(path):
        with open(path) as fp:
            return json.load(fp)
    return {'findings': [], 'fixed': []}


def main(argv):
    sys.setrecursionlimit(30000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = {}

    def go():
        try:
            box['rc'] = run(argv)
        except AnalysisBroken as e:
            print('ANALYSIS-BROKEN: %s' % e)
            box['rc'] = 2
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return box.get('rc', 3)


def run(argv):
    pid = argv[0]
    root = '/repo'
    if pid == '--selftest':
        n = len(collect_refs(Checker('C01', root, 'quick', 1).proj))
        print('%d reference definitions parsed' % n)
        return 0
    verbose = '-v' in argv
    if '--root' in argv:
        root = argv[argv.index('--root') + 1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    ck = Checker(pid, root, tier, seed)
    refs = [r for r in collect_refs(ck.proj) if pid in r.props]
    for r in refs:
        ck.agree(r)
    sys.path.insert(0, HERE)
    nrules = 0
    props = os.path.join(HERE, 'props')
    for f in sorted(os.listdir(props)) if os.path.isdir(props) else ():
        if f.endswith('.py') and not f.startswith('_'):
            m = importlib.import_module('props.' + f[:-3])
            for rule in getattr(m, 'RULES', {}).get(pid, ()):
                k = len(ck.obls)
                try:
                    rule(ck)
                except Exception as e:
                    del ck.obls[k:]
                    ck.fact(rule.__name__, 'props/' + f, None, '%s: %s' % (type(e).__name__, e))
                nrules += 1
    if all(o.status == 'undecided' and o.detail == 'construct not found' for o in ck.obls):
        raise AnalysisBroken('no construct of %s was found: %s' % (pid, [o.where for o in ck.obls][:3]))
    known = load_known()
    from .floors import FLOORS
    floor = FLOORS.get(pid, 1)
    n = len(ck.obls)
    if n < floor:
        raise AnalysisBroken('%d obligations for %s, %d expected' % (n, pid, floor))
    viol, kf = [], []
    for o in ck.obls:
        if o.status != 'violated':
            continue
        k = [x for x in known['findings'] if x['property'] == pid and x['key'] == o.key]
        (kf if k else viol).append((o, k))
    by = {s: sum(1 for o in ck.obls if o.status == s) for s in ('proved', 'agreed', 'undecided', 'violated')}
    wall = round(time.time() - t0, 3)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source of %s: %d obligations (%d agreement obligations against reference definitions, '
                           '%d structural rules). proved = identical canonical value graphs or rule satisfied at every site; agreed = equal '
                           'value numbers under random interpretation; undecided = outside the analysed fragment (never reported as a violation).'
                           % (root, n, len(refs), n - len(refs)),
            'obligations_total': n, 'obligations_proved': by['proved'], 'obligations_agreed': by['agreed'],
            'obligations_undecided': by['undecided'], 'obligations_violated': by['violated'],
            'functions_analysed': len(ck.analysed), 'functions': sorted(ck.analysed),
            'call_sites_inlined': ck.stats['calls'], 'loops_summarised': ck.stats['loops'], 'expressions_evaluated': ck.stats['steps'],
            'value_numberings': ck.stats['interpretations'], 'gate_boundaries': ck.stats['boundary_tests'],
            'obligations_list': [o.as_dict() for o in ck.obls],
        },
        'assumptions': ASSUMPTIONS, 'wall_s': wall, 'violations': len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + '.json'), 'w') as fp:
        json.dump(ev, fp, indent=1)
        fp.write('\n')
    print('%s: %d obligations: %d proved, %d agreed, %d undecided, %d violated; %d functions, %d call sites, %d loops analysed; %.1fs'
          % (pid, n, by['proved'], by['agreed'], by['undecided'], by['violated'], len(ck.analysed), ck.stats['calls'], ck.stats['loops'], wall))
    for o in ck.obls:
        if o.status == 'undecided':
            print('UNDECIDED: %s [%s] %s' % (o.where, o.rule, o.detail[:400]))
        elif verbose:
            print('  %s %s [%s] %s' % (o.status, o.where, o.rule, o.detail[:300]))
    for o, k in kf:
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (pid, o.where, o.rule, k[0].get('what', '')))
    if viol:
        rep = os.path.join(EVID, pid + '.violation.txt')
        with open(rep, 'w') as fp:
            for o, _ in viol:
                fp.write('%s\n  rule: %s\n  %s\n' % (o.where, o.rule, o.detail))
        for o, _ in viol:
            print('%s: rule broken: %s: %s' % (o.where, o.rule, o.detail[:1200]))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0


ASSUMPTIONS = [
    'Numbers are mathematical reals: rounding, overflow and fused operations of the float implementation are outside the analysis.',
    'External libraries (numpy, numba, shapely, skimage, skfmm, scipy, traitlets, anytree, click, configobj) behave as modelled in sa/lib.py or are uninterpreted.',
    'Names are resolved statically; no monkey-patching at run time.',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
