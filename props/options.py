"""Commands: the options a command declares are the arguments its function takes, and their defaults are choices."""
import ast
from sa.check import const_of

LEVELS = {'CRITICAL', 'FATAL', 'ERROR', 'WARNING', 'WARN', 'INFO', 'DEBUG', 'NOTSET'}
PASS = {'pass_context', 'pass_obj'}


def name_of(n):
    f = n.func if isinstance(n, ast.Call) else n
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def texts(args):
    out = []
    for a in args:
        if not (isinstance(a, ast.Constant) and isinstance(a.value, str)):
            return None
        out.append(a.value)
    return out


def destination(names):
    """the argument an option is handed to: its plain name, else its first long name, else its first short one"""
    for n in names:
        if n.isidentifier():
            return n
    long = [n for n in names if n.startswith('--')]
    n = (long or names or [None])[0]
    return None if n is None else n.lstrip('-').split('/')[0].replace('-', '_').lower()


def declared(ck):
    n = 0
    for mn, mod in sorted(ck.proj.modules.items()):
        if mn.startswith('specs.'):
            continue
        for nm, (k, f) in sorted(mod.names.items(), key=lambda x: x[0]):
            if k != 'func' or f.mod is not mod:
                continue
            ds = f.node.decorator_list
            if not any(name_of(d) in ('command', 'group') and isinstance(d, ast.Call) for d in ds):
                continue
            n += 1
            w, key = ck.where(f), 'options of ' + f.qual
            opts, known, first = {}, True, 0
            for d in ds:
                if name_of(d) in ('option', 'argument') and isinstance(d, ast.Call):
                    ts = texts(d.args)
                    if not ts:
                        known = False
                        continue
                    opts[destination(ts)] = d
                elif name_of(d) in PASS:
                    first += 1
                elif name_of(d) not in ('command', 'group', 'version_option', 'help_option'):
                    known = False
            a = f.node.args
            params = [p.arg for p in a.posonlyargs + a.args][first:] + [p.arg for p in a.kwonlyargs]
            if a.vararg or a.kwarg:
                known = False
            same = set(opts) == set(params)
            ck.fact('a command takes the options it declares', w, same if known else True if same else None,
                    'options %s, arguments %s' % (sorted(map(str, opts)), sorted(params)), key=key)
            for nm2, d in sorted(opts.items(), key=lambda x: str(x[0])):
                choice(ck, w, '%s %s' % (key, nm2), d, mod)
    ck.fact('commands were found', 'crowddynamics', True if n else None, '%d commands' % n, key='commands')


def choice(ck, w, key, d, mod):
    """defaults are among the choices, and choices of a log level are names of levels"""
    kw = {k.arg: k.value for k in d.keywords}
    ty = kw.get('type')
    if not (isinstance(ty, ast.Call) and name_of(ty) == 'Choice' and ty.args):
        return
    vals = choices(ck, ty.args[0], mod)
    if vals is None:
        ck.fact('choices are known', w, None, ast.unparse(ty), key=key)
        return
    if 'default' in kw:
        try:
            v = const_of(ck.proj, kw['default'], mod, 0)
        except ValueError:
            v = None
        if v is not None:
            ck.fact('the default of an option is one of its choices', w, v in vals, '%r of %s' % (v, sorted(vals)), key=key + ' default')
    if 'level' in key:
        ck.fact('log levels are names of levels', w, all(isinstance(v, str) and v in LEVELS for v in vals), str(sorted(map(str, vals))), key=key + ' levels')


def choices(ck, n, mod, depth=0):
    if depth > 6:
        return None
    if isinstance(n, ast.Name):
        k = ck.proj.lookup(mod.name, n.id)
        if k is None or k[0] != 'const':
            return None
        m, _, v = k[1]
        return choices(ck, v, m, depth + 1) if isinstance(v, ast.AST) else None
    if isinstance(n, ast.Call) and name_of(n) in ('list', 'tuple', 'sorted', 'set') and len(n.args) == 1:
        return choices(ck, n.args[0], mod, depth + 1)
    if isinstance(n, ast.Call) and name_of(n) == 'keys' and not n.args:
        return choices(ck, n.func.value, mod, depth + 1)
    if isinstance(n, ast.Attribute) and n.attr == '_nameToLevel':
        return LEVELS
    if isinstance(n, ast.Dict):
        n = ast.List(elts=n.keys)
    if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
        out = set()
        for x in n.elts:
            try:
                out.add(const_of(ck.proj, x, mod, 0))
            except ValueError:
                return None
        return out
    return None


RULES = {'C41': [declared]}
