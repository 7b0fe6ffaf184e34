"""Loads the source of the analysed tree (and of the reference definitions) as
syntax trees and resolves names through imports and re-exports.  Nothing is
imported or executed."""
import ast
import os
import warnings


class AnalysisBroken(Exception):
    """an anchor vanished or the source cannot be analysed at all"""


class FuncDef:
    def __init__(self, mod, node, cls=None, qual=None):
        self.mod = mod
        self.node = node
        self.cls = cls
        self.qual = qual or (mod.name + '.' + (cls.name + '.' if cls else '') + node.name)
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in node.decorator_list]

    def has_deco(self, suffix):
        return any(d and (d == suffix or d.endswith('.' + suffix)) for d in self.decorators)

    def __repr__(self):
        return '<func %s>' % self.qual


class ClassDef:
    def __init__(self, mod, node, qual=None):
        self.mod = mod
        self.node = node
        self.name = node.name
        self.qual = qual or (mod.name + '.' + node.name)
        self.methods = {}
        self.attrs = {}
        self.inner = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = FuncDef(mod, st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.attrs[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.inner[st.name] = ClassDef(mod, st, self.qual + '.' + st.name)

    def __repr__(self):
        return '<class %s>' % self.qual


def dotted(node):
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        b = dotted(node.value)
        return b + '.' + node.attr if b else None
    return None


class Module:
    def __init__(self, proj, name, path, src):
        self.proj = proj
        self.name = name
        self.path = path
        self.src = src
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.tree = ast.parse(src, path)
        except SyntaxError as e:
            raise AnalysisBroken('%s does not parse: %s' % (path, e))
        self.names = {}     # name -> ('func',FuncDef)|('class',ClassDef)|('imp',target)|('const',node)
        self.alts = {}
        self.is_pkg = path.endswith('__init__.py')
        self._collect(self.tree.body)
        # everything bound anywhere in the module's own scope, however conditionally
        self.allnames = set(self.names)
        stack = list(self.tree.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.allnames.add(n.name)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.allnames.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                self.allnames.update((a.asname or a.name).split('.')[0] for a in n.names)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.allnames.add(n.name)
            stack.extend(ast.iter_child_nodes(n))
        self.allnames |= {x for g in ast.walk(self.tree) if isinstance(g, ast.Global) for x in g.names}

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[st.name] = ('func', FuncDef(self, st))
            elif isinstance(st, ast.ClassDef):
                self.names[st.name] = ('class', ClassDef(self, st))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = ('imp', a.name)
                    else:
                        self.names[a.name.split('.')[0]] = ('imp', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    pkg = self.name.split('.') if self.is_pkg else self.name.split('.')[:-1]
                    pkg = pkg[:len(pkg) - (st.level - 1)]
                    base = '.'.join(pkg + ([st.module] if st.module else []))
                for a in st.names:
                    self.names[a.asname or a.name] = ('imp', base + '.' + a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ('const', st.value)
                    elif isinstance(t, ast.Tuple) and isinstance(st.value, ast.Tuple) and len(t.elts) == len(st.value.elts):
                        for tt, vv in zip(t.elts, st.value.elts):
                            if isinstance(tt, ast.Name):
                                self.names[tt.id] = ('const', vv)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.names[st.target.id] = ('const', st.value)
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, ast.Try):
                self._collect(st.body)
                for h in st.handlers:
                    self._collect(h.body)


class Project:
    def __init__(self, root, specs=None):
        self.root = root
        self.modules = {}
        self.overrides = {}
        pkg = os.path.join(root, 'crowddynamics')
        if not os.path.isdir(pkg):
            raise AnalysisBroken('no package at %s' % pkg)
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__'))
            for f in sorted(files):
                if f.endswith('.py') and f not in ('_version.py', 'conftest.py'):
                    self._add(os.path.join(d, f), root, '')
        if specs:
            for f in sorted(os.listdir(specs)):
                if f.endswith('.py'):
                    path = os.path.join(specs, f)
                    with open(path, encoding='utf-8') as fp:
                        name = 'specs.' + f[:-3]
                        self.modules[name] = Module(self, name, path, fp.read())

    def known_names(self):
        """every attribute, method and class-level name the definitions were written against"""
        if not hasattr(self, '_known'):
            with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'specs', 'names.txt'), encoding='utf-8') as fp:
                self._known = set(fp.read().split())
        return self._known

    def readers(self, name):
        """functions of the package that mention an attribute other than to set it"""
        out = []
        for mn, m in self.modules.items():
            if mn.startswith('specs.'):
                continue
            for k, x in m.names.values():
                for f in ([x] if k == 'func' else list(x.methods.values()) if k == 'class' else ()):
                    if any((isinstance(n, ast.Attribute) and n.attr == name and not isinstance(n.ctx, ast.Store)) or
                           (isinstance(n, ast.Constant) and n.value == name) for n in ast.walk(f.node)):
                        out.append(f)
        return out

    def _add(self, path, root, prefix):
        rel = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
        if rel.endswith('.__init__'):
            rel = rel[:-9]
        with open(path, encoding='utf-8') as fp:
            self.modules[rel] = Module(self, rel, path, fp.read())

    # -- resolution
    def lookup(self, modname, name, depth=0):
        """-> ('func'|'class'|'const'|'mod'|'ext', payload) or None"""
        m = self.modules.get(modname)
        if m is None or depth > 12:
            return None
        if name in m.names:
            kind, p = m.names[name]
            if kind == 'imp':
                return self.resolve(p, depth + 1)
            if kind == 'const':
                return ('const', (m, name, p))
            return (kind, p)
        sub = modname + '.' + name
        if sub in self.modules:
            return ('mod', sub)
        return None

    def resolve(self, path, depth=0):
        if path in self.modules:
            return ('mod', path)
        parts = path.split('.')
        for k in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:k])
            if mod in self.modules:
                r = self.lookup(mod, parts[k], depth + 1)
                for attr in parts[k + 1:]:
                    if r is None:
                        return None
                    if r[0] == 'class':
                        c = r[1]
                        if attr in c.methods:
                            r = ('func', c.methods[attr])
                        elif attr in c.inner:
                            r = ('class', c.inner[attr])
                        else:
                            fm = self.find_method(c, attr)
                            r = ('func', fm) if fm else None
                    elif r[0] == 'ext':
                        r = ('ext', r[1] + '.' + attr)
                    elif r[0] == 'mod':
                        r = self.lookup(r[1], attr, depth + 1)
                    else:
                        r = None
                return r
        return ('ext', path)

    def func(self, path):
        r = self.resolve(path)
        for _ in range(8):
            if r is None or r[0] != 'const':
                break
            m, _, node = r[1]
            while isinstance(node, ast.Call) and len(node.args) == 1 and not node.keywords:
                node = node.args[0]
            d = dotted(node)
            r = None
            if d:
                r = self.lookup(m.name, d.split('.')[0])
                if r and r[0] == 'mod' and '.' in d:
                    r = self.resolve(r[1] + '.' + d.split('.', 1)[1])
        if r is None or r[0] != 'func':
            found = self.by_name(path)
            if len(found) == 1:
                return found[0]
            raise AnalysisBroken('anchor %s not found' % path)
        return r[1]

    def by_name(self, path):
        """a function or method that moved: same bare name (and class name for methods)"""
        parts = path.split('.')
        if parts[0] == 'specs':
            return []
        last, owner = parts[-1], parts[-2]
        out = []
        for m in self.modules.values():
            if m.name.startswith('specs'):
                continue
            for n, (kind, p) in m.names.items():
                if kind == 'func' and n == last and not owner[:1].isupper():
                    out.append(p)
                elif kind == 'class' and n == owner and last in p.methods:
                    out.append(p.methods[last])
        return out

    def cls(self, path):
        r = self.resolve(path)
        if r is None or r[0] != 'class':
            raise AnalysisBroken('anchor class %s not found' % path)
        return r[1]

    def bases(self, c):
        out = []
        for b in c.node.bases:
            d = dotted(b)
            if d is None:
                continue
            parts = d.split('.')
            r = self.lookup(c.mod.name, parts[0])
            for a in parts[1:]:
                if r is None:
                    break
                if r[0] == 'mod':
                    r = self.lookup(r[1], a)
                elif r[0] == 'ext':
                    r = ('ext', r[1] + '.' + a)
                else:
                    r = None
            out.append(r if r else ('ext', d))
        return out

    def mro(self, c):
        """C3 linearisation; external bases appear as strings"""
        def merge(seqs):
            res = []
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return res
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    return res + seqs[0]
                res.append(h)
                seqs = [s[1:] if s[0] == h else s for s in seqs]
        bs = []
        for b in self.bases(c):
            bs.append(b[1] if b[0] in ('class', 'ext') else str(b[1]))
        return [c] + merge([self.mro(b) if isinstance(b, ClassDef) else [b] for b in bs] + [bs])

    def find_method(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassDef) and name in k.methods:
                return k.methods[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassDef) and (name in k.attrs or name in k.inner):
                return k, k.attrs.get(name), k.inner.get(name)
        return None
