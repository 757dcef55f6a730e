"""Program model: parses every module of the package under analysis and resolves
modules, classes (with MRO), functions and module-level constants.

Nothing of the analysed program is imported or executed."""
import ast
import os
import warnings

REPO = os.environ.get('SA_REPO', '/repo')
PKG_DIR = os.path.join(REPO, 'src', 'gimpy')


class AnalysisBroken(Exception):
    """An anchor the checks rely on has vanished: no verdict is possible."""


class FuncModel:
    __slots__ = ('name', 'node', 'module', 'cls', 'is_gen', 'live', 'decos', 'closure',
                 'locals', 'outer')

    def __init__(self, name, node, module, cls=None):
        self.name = name
        self.node = node
        self.module = module
        self.cls = cls
        self.is_gen = _has_yield(node)
        self.live = None
        self.decos = getattr(node, 'decorator_list', [])
        self.closure = None
        self.locals = None
        self.outer = None

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name

    def __repr__(self):
        return '<F %s>' % self.qual


class ClassModel:
    def __init__(self, name, node, module):
        self.name = name
        self.node = node
        self.module = module
        self.methods = {}
        self.attrs = {}
        self.base_exprs = node.bases
        self.bases = []     # ClassModel or dotted external name
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[st.name] = FuncModel(st.name, st, module, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = st.value

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassModel):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_subclass(self, name):
        return any(c.name == name for c in self.mro()) or name in self.ext_bases()

    def ext_bases(self):
        out = set()
        for c in self.mro():
            for b in c.bases:
                if not isinstance(b, ClassModel):
                    out.add(b.split('.')[-1])
        return out

    def __repr__(self):
        return '<C %s>' % self.name


class ModuleModel:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(self.src, path)
        self.ns = {}        # name -> ('class',ClassModel)|('func',FuncModel)|('expr',ast)|('ext',dotted)|('mod',ModuleModel)
        self.stars = []
        self.multi = {}     # name -> list of alternative bindings (try/except imports, conditional constants)


def _has_yield(fn):
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Program:
    def __init__(self, pkg_dir=None):
        self.pkg_dir = pkg_dir or PKG_DIR
        self.modules = {}
        if not os.path.isdir(self.pkg_dir):
            raise AnalysisBroken('package directory %s is missing' % self.pkg_dir)
        for root, dirs, files in os.walk(self.pkg_dir):
            dirs[:] = [d for d in dirs if d not in ('examples', '__pycache__')]
            for f in sorted(files):
                if f.endswith('.py'):
                    rel = os.path.relpath(os.path.join(root, f), self.pkg_dir)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('__init__'):
                        name = name[:-9].rstrip('.') or ''
                    self.modules[name] = ModuleModel(name, os.path.join(root, f))
        self.classes = {}
        for m in self.modules.values():
            self._collect(m, m.tree.body)
        for m in self.modules.values():
            self._stars(m, set())
        for m in self.modules.values():
            for kind in list(m.ns.values()):
                if kind[0] == 'class' and kind[1].module is m:
                    c = kind[1]
                    self.classes.setdefault(c.name, c)
                    c.bases = []
                    for b in c.base_exprs:
                        r = self.resolve_expr_static(m, b)
                        if r and r[0] == 'class':
                            c.bases.append(r[1])
                        else:
                            c.bases.append(ast.unparse(b))

    # -- collection ------------------------------------------------------
    def _bind(self, m, name, val):
        if name in m.ns and m.ns[name] is not val:
            m.multi.setdefault(name, [m.ns[name]]).append(val)
        m.ns[name] = val

    def _collect(self, m, body):
        for st in body:
            if isinstance(st, ast.ClassDef):
                self._bind(m, st.name, ('class', ClassModel(st.name, st, m)))
            elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._bind(m, st.name, ('func', FuncModel(st.name, st, m)))
            elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                if st.value is None:
                    continue
                targets = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in targets:
                    if isinstance(t, ast.Name):
                        self._bind(m, t.id, ('expr', st.value))
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                if isinstance(st.value, (ast.Tuple, ast.List)) and len(st.value.elts) == len(t.elts):
                                    self._bind(m, e.id, ('expr', st.value.elts[i]))
                                else:
                                    self._bind(m, e.id, ('ext', m.name + '.' + e.id))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    nm = a.asname or a.name.split('.')[0]
                    self._bind(m, nm, ('ext', a.name if a.asname else a.name.split('.')[0]))
            elif isinstance(st, ast.ImportFrom):
                target = self._rel(m, st)
                for a in st.names:
                    if a.name == '*':
                        m.stars.append(target)
                        continue
                    nm = a.asname or a.name
                    if target is not None and target in self.modules:
                        self._bind(m, nm, ('from', target, a.name))
                    else:
                        self._bind(m, nm, ('ext', ((st.module or '') + '.' + a.name).lstrip('.')))
            elif isinstance(st, ast.If):
                self._collect(m, st.body)
                self._collect(m, st.orelse)
            elif isinstance(st, ast.Try):
                # in import fallbacks later alternatives win only if the first is unavailable;
                # keep all, resolved name is the last (the available one in this sandbox is irrelevant)
                self._collect(m, st.body)
                for h in st.handlers:
                    self._collect(m, h.body)
                self._collect(m, st.orelse)
                self._collect(m, st.finalbody)
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                self._collect(m, st.body)

    def _rel(self, m, st):
        """package-relative name of the imported module, or None when external"""
        if st.level:
            base = m.name.split('.') if m.name else []
            if os.path.basename(m.path) != '__init__.py' and base:
                base = base[:-1]
            base = base[:len(base) - (st.level - 1)] if st.level > 1 else base
            return '.'.join([b for b in base if b] + ([st.module] if st.module else []))
        for pre in ('gimpy', 'coinor.gimpy', 'src.gimpy'):
            if st.module == pre:
                return ''
            if st.module and st.module.startswith(pre + '.'):
                return st.module[len(pre) + 1:]
        return None

    def _stars(self, m, seen):
        if m.name in seen:
            return
        seen.add(m.name)
        for s in m.stars:
            if s in self.modules:
                self._stars(self.modules[s], seen)
                for k, v in self.modules[s].ns.items():
                    if not k.startswith('_') and k not in m.ns:
                        m.ns[k] = ('from', s, k)
            else:
                m.ns.setdefault('*', ('ext', s or '*'))

    # -- lookup ----------------------------------------------------------
    def lookup(self, m, name, depth=0):
        """resolves a module-level name to a non-'from' binding, or None"""
        v = m.ns.get(name)
        if v is None:
            return None
        while v[0] == 'from':
            depth += 1
            if depth > 20:
                return None
            mod = self.modules.get(v[1])
            if mod is None:
                return ('ext', v[1] + '.' + v[2])
            w = mod.ns.get(v[2])
            if w is None:
                sub = (v[1] + '.' + v[2]).lstrip('.')
                if sub in self.modules:
                    return ('mod', self.modules[sub])
                return None
            v = w
        return v

    def module_of(self, m, name):
        """module where the (possibly re-exported) name is really defined"""
        v = m.ns.get(name)
        cur = m
        n = name
        while v is not None and v[0] == 'from':
            cur = self.modules.get(v[1])
            n = v[2]
            if cur is None:
                return None
            v = cur.ns.get(n)
        return cur

    def resolve_expr_static(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = self.lookup(m, e.value.id)
            if b and b[0] == 'mod':
                return self.lookup(b[1], e.attr)
        return None

    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisBroken('class %s is missing from %s' % (name, self.pkg_dir))
        return c

    def method(self, cls, name):
        f = self.cls(cls).lookup(name)
        if f is None:
            raise AnalysisBroken('method %s.%s is missing' % (cls, name))
        return f
