"""C20: every internal reference resolves."""
import ast
import builtins
import glob
import importlib.util
import sys
from .base import *
from ..entries import CLASSES

ID = 'C20'
TECHNIQUE = ('reference resolution over all paths (abstract interpretation) and over the syntax tree: names, attributes, '
             'argument lists, assignment before use, settings, consistent returns')
RULE = ('every name, module attribute, method and setting a package function uses resolves; every call to a package '
        'function or container class binds; no local variable is read on a path that has not assigned it; no operation '
        'returns a value on one normal path and falls off its end on another')
EXPLANATION = ('Two layers. Every entry point (the inherited ones of the tree classes included) is interpreted abstractly '
               'from an arbitrary graph, calls being bound to the override the class really has; a local read while '
               'unassigned, an unbindable call, an unknown attribute and a setting that Graph.__init__ does not '
               'provide are violations. Over the syntax tree, every function of the package is checked for names and '
               'module attributes that exist nowhere, self-methods no class has, and mixed returns.')
MINIMUM = {'entries': 50, 'functions': 60, 'names': 300}
ASSUMPTIONS = ['a loop body that assigns a variable on every pass is taken to run at least once (graphs without nodes '
               'or arcs are outside the documented use of the flow methods)',
               'the helpers listed in PRE are called under the precondition their caller establishes']
# a violating arc exists; the algorithm name was checked by search()
PRE = {'simplex_select_entering_arc', 'simplex_determine_leaving_arc', 'process_edge_search'}


# ---- definite assignment, every loop body taken once ---------------------------------------------------
class Assigned:
    def __init__(self, fn):
        self.bad = set()        # names read where an assignment is not certain
        a = fn.args
        names = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}
        for x in (a.vararg, a.kwarg):
            if x is not None:
                names.add(x.arg)
        if isinstance(fn.body, list):
            self.block(fn.body, names)

    def expr(self, e, d):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in d:
                self.bad.add(n.id)
        for n in ast.walk(e):
            if isinstance(n, ast.NamedExpr):
                d.add(n.target.id)

    def target(self, t, d):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                d.add(n.id)

    def block(self, l, d):
        """names assigned after the block, None when its end is not reached"""
        for s in l:
            if d is None:
                return None
            d = self.stmt(s, d)
        return d

    def meet(self, a, b):
        return b if a is None else a if b is None else a & b

    def stmt(self, s, d):
        if isinstance(s, ast.If):
            self.expr(s.test, d)
            return self.meet(self.block(s.body, set(d)), self.block(s.orelse, set(d)))
        if isinstance(s, (ast.For, ast.While)):
            self.expr(s.iter if isinstance(s, ast.For) else s.test, d)
            x = set(d)
            if isinstance(s, ast.For):
                self.target(s.target, x)
            keep = set(x)
            self.brk = getattr(self, 'brk', [])
            self.brk.append([])
            r = self.block(s.body, x)
            out = self.brk.pop()
            if r is None and not out:
                r = keep
            for o in out:
                r = self.meet(r, o)
            if s.orelse:
                r = self.meet(r, self.block(s.orelse, set(r)))
            return r
        if isinstance(s, (ast.Break, ast.Continue)):
            if getattr(self, 'brk', None):
                self.brk[-1].append(set(d))
            return None
        if isinstance(s, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(s):
                self.expr(c, d)
            return None
        if isinstance(s, ast.Try):
            r = self.block(s.body, set(d))
            if r is not None and s.orelse:
                r = self.block(s.orelse, r)
            for h in s.handlers:
                x = set(d)
                if h.name:
                    x.add(h.name)
                r = self.meet(r, self.block(h.body, x))
            if s.finalbody:
                f = self.block(s.finalbody, set(d))
                r = None if f is None or r is None else r | f
            return r
        if isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr, d)
                if i.optional_vars is not None:
                    self.target(i.optional_vars, d)
            return self.block(s.body, d)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            d.add(s.name)
            return d
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                d.add((a.asname or a.name).split('.')[0])
            return d
        if isinstance(s, ast.Assign):
            self.expr(s.value, d)
            for t in s.targets:
                self.target(t, d)
            return d
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.expr(c, d)
        self.target(s, d)
        return d


def uncertain(prog, qual):
    """locals of a function whose assignment before use is uncertain even when every loop runs"""
    c, _, m = qual.rpartition('.')
    for fm in functions(prog):
        if fm.qual == qual:
            return Assigned(fm.node).bad
    return None


def functions(prog):
    for m in prog.modules.values():
        for x in m.ns.values():
            if x[0] == 'func' and x[1].module is m:
                yield x[1]
            elif x[0] == 'class' and x[1].module is m:
                for f in x[1].methods.values():
                    yield f


# ---- layer one: paths ----------------------------------------------------------------------------------
def containers(prog):
    """method name -> (least, most) number of arguments, of the queue classes the package imports from blimpy"""
    out = {}
    for base in ['/opt/venv/lib/python3*/site-packages'] + sys.path:
        for f in glob.glob(base + '/coinor/blimpy/*.py'):
            try:
                tree = ast.parse(open(f, encoding='utf-8').read())
            except Exception:
                continue
            for c in tree.body:
                if isinstance(c, ast.ClassDef):
                    ms = out.setdefault(c.name, {})
                    for m in c.body:
                        if isinstance(m, ast.FunctionDef):
                            n = len(m.args.args) - 1
                            ms[m.name] = (n - len(m.args.defaults), None if m.args.vararg else n,
                                          [a.arg for a in m.args.args[1:]])
        if out:
            return out
    return out


def settings(prog):
    """the settings Graph.__init__ leaves on every graph, on every normal path"""
    out = None
    default = set()
    for m in prog.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict) and 'ATTR' in ast.unparse(n.targets[0]) \
                    and 'GRAPH' in ast.unparse(n.targets[0]):
                default |= {k.value for k in n.value.keys if isinstance(k, ast.Constant)}
    words = {n.slice.value for m in prog.modules.values() for n in ast.walk(m.tree)
             if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)}
    for g in ('digraph', 'graph'):
        r = explore(prog, 'Graph', '__init__', g, keep=lambda ev: ev[0] in ('set', 'test'), sink=False, tracked=None,
                    untracked=frozenset(), merge=False)
        if r is None:
            return None
        it, outs = r
        for st, o in outs:
            if o[0] != 'return':
                continue
            d = st.store.get(('f', SELF, 'attr'))
            if d is None or d[0] != 'o':
                return None
            ks = set(default)
            for e in st.events():
                if e[0] == 'set' and e[2] == d and e[3][0] == 'c':
                    ks.add(e[3][2])
                elif e[0] == 'test' and e[3] and e[2][0] == 'in' and e[2][2] == d and e[2][1][0] == 'c':
                    ks.add(e[2][1][2])
            for x in words:
                if x not in ks and it.known_in(st, C(x), d) is True:
                    ks.add(x)
            out = ks if out is None else out & ks
    return out


def run(prog, res, cls, meth, gtype, omit, have, api):
    def hook(it, st, ev):
        k = ev[0]
        if k in ('unbound', 'maybe_unbound'):
            res.count('local_reads')
            f = ev[1][2]
            if f.split('.')[-1] in PRE:
                return
            u = uncertain(prog, f)
            if u is not None and ev[2] in u:
                res.find('unbound', ev[1], ev[2], "the local variable '%s' may be read before it is assigned" % ev[2])
        elif k == 'unresolved':
            res.find('unresolved', ev[1], ev[2], "the name '%s' is defined nowhere" % ev[2])
        elif k == 'noattr':
            if ev[3].startswith('__'):
                return
            res.find('noattr', ev[1], '%s.%s' % (ev[2], ev[3]), "%s has no attribute '%s'" % (ev[2], ev[3]))
        elif k == 'badcall':
            res.find('badcall', ev[1], '%s %s' % (ev[2], ev[3]), 'the call does not match %s: it %s' % (ev[2], ev[3]))
        elif k == 'rd':
            base, key = ev[2], ev[3]
            if have is not None and key[0] == 'c' and isinstance(key[2], str) and root(base) == SELF \
                    and kd(it.kind(base, st))[0] == 'gattr':
                res.count('setting_reads')
                if key[2] not in have and it.known_in(st, key, base) is not True:
                    res.find('setting', ev[1], key[2], "the setting '%s' is read, which not every graph has" % key[2])
        elif k == 'ecall':
            kind = str(kd(it.kind(ev[2], st))[0])
            c = kind.split('.')[-1].split(':')[-1]
            if not kind.startswith('ext:') or c not in api or ev[2][0] != 'o':
                return
            res.count('container_calls')
            sig = api[c].get(ev[3])
            if sig is None:
                res.find('noattr', ev[1], '%s.%s' % (c, ev[3]), "%s has no method '%s'" % (c, ev[3]))
            elif isinstance(ev[4], (tuple, list)):
                n = len(ev[4]) + len(ev[5] or {})
                if n < sig[0] or (sig[1] is not None and n > sig[1]):
                    res.find('badcall', ev[1], '%s.%s' % (c, ev[3]), "%s.%s is called with %d arguments" % (c, ev[3], n))
    res.count('entries')
    each_entry(res, prog, cls, meth, gtype, hook, tracked=tracking(), omit=omit, watch={('it', 'gattr', None)})


# ---- layer two: the syntax tree ------------------------------------------------------------------------
def module_names(prog, m, seen=None):
    """names a module may define (conditional definitions included); None: unknown star import"""
    seen = seen or set()
    if m in seen:
        return set()
    seen.add(m)
    out = {'__name__', '__file__', '__doc__', '__package__', '__path__', '__all__', '__builtins__'}

    def go(l):
        for s in l:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                out.add(s.name)
                continue
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    if a.name == '*':
                        x = star(s)
                        if x is None:
                            return False
                        out.update(x)
                    else:
                        out.add((a.asname or a.name).split('.')[0])
                continue
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
            for f in ('body', 'orelse', 'finalbody'):
                if go(getattr(s, f, []) or []) is False:
                    return False
            for h in getattr(s, 'handlers', []):
                if go(h.body) is False:
                    return False

    def star(s):
        name = (s.module or '').split('.')[-1]
        for k, x in prog.modules.items():
            if k.split('.')[-1] == name:
                return module_names(prog, x, seen)
        return None
    if go(m.tree.body) is False:
        return None
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            out.update(n.names)
    return out


def scope(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update((a.asname or a.name).split('.')[0] for a in n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


STDLIB = set(getattr(sys, 'stdlib_module_names', ()))


def std_attr(dotted, attr):
    """False: the standard module has no such attribute"""
    if dotted.split('.')[0] not in STDLIB or dotted.split('.')[0] in ('__future__', 'this', 'antigravity'):
        return None
    try:
        m = importlib.import_module(dotted)
    except Exception:
        return None
    return hasattr(m, attr)


def falls(l):
    """the end of the block can be reached (other than by a message to the user)"""
    if l and isinstance(l[-1], ast.If):
        s = l[-1]
        if not falls(l[:-1]) or not falls(s.body) and s.orelse and not falls(s.orelse):
            return False
    elif l and said(l[-1]):
        return False
    for s in l:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If) and s.orelse and not falls(s.body) and not falls(s.orelse):
            return False
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value \
                and not any(isinstance(n, ast.Break) for n in ast.walk(s)):
            return False
        if isinstance(s, ast.With) and not falls(s.body):
            return False
        if isinstance(s, ast.Try):
            if s.finalbody and not falls(s.finalbody):
                return False
            b = not falls(s.body) or (bool(s.orelse) and not falls(s.orelse))
            if b and all(not falls(h.body) for h in s.handlers):
                return False
    return True


def own_nodes(fn):
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            st.extend(ast.iter_child_nodes(n))


def module_consts(m):
    """names bound at module level to a constant, by all the values they may get"""
    out = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                and isinstance(n.value, ast.Constant):
            out.setdefault(n.targets[0].id, set()).add(n.value.value)
    return out


def syntax(prog, res):
    allmeth = {}
    fields = {}
    for c in prog.classes.values():
        fs = set()
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) \
                        and f.node.args.args and n.value.id == f.node.args.args[0].arg:
                    fs.add(n.attr)
        fields[c.name] = fs | set(c.methods) | set(c.attrs)
    for m in prog.modules.values():
        known = module_names(prog, m)
        if known is None:
            res.note('%s: a star import from outside the package, names are not checked' % m.name)
        imports = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname or '.' not in a.name:
                        imports[a.asname or a.name] = a.name
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                for a in n.names:
                    if std_attr(n.module, a.name) is False and not guarded(m.tree, n):
                        res.find('import', (m.path, n.lineno, m.name), a.name,
                                 "%s has no '%s'" % (n.module, a.name))
        for fm in functions(prog):
            if fm.module is not m:
                continue
            res.count('functions')
            res.funcs.add(fm.qual)
            loc = scope(fm.node)
            site = lambda n: (m.path, n.lineno, fm.qual)
            for n in ast.walk(fm.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    res.count('names')
                    if known is not None and n.id not in loc and n.id not in known and not hasattr(builtins, n.id):
                        res.find('unresolved', site(n), n.id, "the name '%s' is defined nowhere" % n.id)
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
                    v = n.value.id
                    if v in imports and v not in loc:
                        res.count('module_attributes')
                        if std_attr(imports[v], n.attr) is False:
                            res.find('noattr', site(n), '%s.%s' % (v, n.attr), "module %s has no attribute '%s'"
                                     % (imports[v], n.attr))
                    elif fm.cls is not None and fm.node.args.args and v == fm.node.args.args[0].arg \
                            and not fm.cls.ext_bases() - {'object'}:
                        res.count('self_attributes')
                        ok = any(n.attr in fields[c.name] for c in prog.classes.values()
                                 if c in fm.cls.mro() or fm.cls in c.mro())
                        if not ok and not hasattr(object, n.attr):
                            res.find('noattr', site(n), n.attr, "%s has no attribute '%s'" % (fm.cls.name, n.attr))
            if fm.is_gen or not isinstance(fm.node.body, list) or fm.cls is not None and \
                    not any(fm.name in CLASSES.get(c.name, ()) for c in prog.classes.values() if fm.cls in c.mro()):
                continue                 # a helper of the code's own: its callers see to what it returns
            rets = [n for n in own_nodes(fm.node) if isinstance(n, ast.Return)]
            val = [n for n in rets if valued(prog, n.value)]
            expl = [n for n in rets if isinstance(n.value, ast.Constant) and n.value.value is None]
            told = answered(fm.node)
            bare = [n for n in rets if n.value is None and id(n) not in told]
            if val:
                res.count('returning_functions')
                if bare and not expl:
                    res.find('mixed-return', site(bare[0]), fm.qual, 'returns a value on one path and nothing on another')
                elif falls(fm.node.body) and not expl:
                    res.find('mixed-return', site(val[0]), fm.qual,
                             'returns a value on one path and reaches its end without one on another')


def valued(prog, e, seen=()):
    """the expression of a return statement is a value (not None, not the result of a procedure)"""
    if e is None or (isinstance(e, ast.Constant) and e.value is None):
        return False
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
        fs = [f for f in functions(prog) if f.name == e.func.attr and f.cls is not None]
        if fs and e.func.attr not in seen:
            return any(valued(prog, n.value, seen + (e.func.attr,)) for f in fs for n in own_nodes(f.node)
                       if isinstance(n, ast.Return)) or any(f.is_gen for f in fs)
        return not fs
    if isinstance(e, ast.Call) and not isinstance(e.func, (ast.Attribute, ast.Name)):
        return False                     # whatever was looked up: not known to be a value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not hasattr(builtins, e.func.id) and not any(
            c.name == e.func.id for c in prog.classes.values()):
        fs = [f for f in functions(prog) if f.name == e.func.id and f.cls is None]
        return e.func.id not in seen and any(valued(prog, n.value, seen + (e.func.id,)) for f in fs for n in own_nodes(f.node)
                                             if isinstance(n, ast.Return))
    return True


def said(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) \
        and s.value.func.id == 'print'


def answered(fn):
    """bare returns that follow a message to the user: the call was refused"""
    out = set()
    for n in ast.walk(fn):
        for f in ('body', 'orelse', 'finalbody'):
            l = getattr(n, f, None)
            if isinstance(l, list):
                told = False
                for s in l:
                    if said(s):
                        told = True
                    if told and isinstance(s, ast.Return):
                        out.add(id(s))
    return out


def guarded(tree, n):
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and any(x is n for b in (t.body, *[h.body for h in t.handlers]) for s in b
                                          for x in ast.walk(s)):
            return True
    return False


def jobs(prog, tier):
    have, api = settings(prog), containers(prog)
    yield 'syntax', syntax, ()
    for c, m, g in EN.entries():
        yield '%s.%s/%s' % (c, m, g), run, (c, m, g, (), have, api)
    for c in ('Tree', 'BinaryTree', 'DisjointSet'):
        for m in EN.CLASSES['Graph']:
            if m in EN.CLASSES[c] or (c == 'BinaryTree' and m in EN.CLASSES['Tree']) or m == '__init__':
                continue
            yield '%s.%s/%s' % (c, m, 'digraph'), run, (c, m, 'digraph', (), have, api)
