"""Expressions, calls and builtins of the abstract interpreter."""
import ast
import builtins
from .terms import *
from .state import *
from .model import FuncModel, ClassModel
from .heap import ALL, ZS, DICTS, LIST_ELEM, CONTAINERS

NEG = frozenset((-1,))
POS = frozenset((1,))
NZ = frozenset((-1, 1))
LE = frozenset((-1, 0))
GE = frozenset((0, 1))
BUILTINS = set(dir(builtins))
LIST_MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse'}
DICT_MUT = {'update', 'setdefault', 'pop', 'popitem', 'clear'}
SET_MUT = {'add', 'discard', 'remove', 'pop', 'clear', 'update', 'difference_update', 'intersection_update',
           'symmetric_difference_update'}
NAMEK = ('name', ('opt', 'name'))
PURE_EXT = {'isEmpty', 'peek', 'get_priority', 'size', 'isempty', 'empty'}


class Exprs:
    """mixed into Interp"""

    # ---- evaluation ------------------------------------------------------------------------
    def eval(self, e, st):
        """[(state, term)]; raising paths go to self.excs[-1]"""
        self.step()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unsup('expression ' + type(e).__name__)
            return [(st, ('u', 'expr', self.intern((e.lineno, e.col_offset))))]
        old = self.curnode
        self.curnode = e
        r = m(e, st)
        self.curnode = old
        return r

    def evals(self, es, st):
        """[(state, [terms])]"""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for x, vs in cur:
                for y, v in self.eval(e, x):
                    nxt.append((y, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, e, st):
        return [(st, C(e.value) if isinstance(e.value, (int, float, str, bool, type(None)))
                 else ('c', type(e.value).__name__, repr(e.value)))]

    def e_Name(self, e, st):
        v = self.lookup(st, e.id)
        if v is None:
            return []
        if v[0] in ('g',) and v[1] == 'default':
            pass
        return [(st, v)]

    def lookup(self, st, name):
        f = st.frames[-1]
        v = f.env.get(name)
        if v is not None:
            if v[0] == 'mu':
                self.emit(st, ('maybe_unbound', self.site(st), name))
            return v
        # local of this function that has not been assigned?
        if f.func is not None and name in self.local_names(f.func):
            self.emit(st, ('unbound', self.site(st), name))
            self.raise_exc(st, 'UnboundLocalError', name)
            return None
        # enclosing functions
        clo = f.env.get('\0closure')
        seen = 0
        while clo is not None and seen < 10:
            seen += 1
            fr = st.frame_of(clo[0])
            env = fr.env if fr is not None else clo[1]
            if name in env:
                return env[name]
            if name in clo[1]:
                return clo[1][name]
            clo = env.get('\0closure')
        return self.global_name(st, f.mod, name)

    def local_names(self, fm):
        if fm.locals is None:
            s = set()
            skip = set()
            def walk(n, top=False):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        s.add(c.name)
                        continue
                    if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        s.add(c.id)
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        for a in c.names:
                            s.add(a.asname or a.name.split('.')[0])
                    if isinstance(c, (ast.Global, ast.Nonlocal)):
                        skip.update(c.names)
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        s.add(c.name)
                    walk(c)
            for b in fm.node.body:
                if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
                    s.add(b.name)
                else:
                    walk_holder = ast.Module(body=[b], type_ignores=[])
                    walk(walk_holder)
            fm.locals = s - skip
        return fm.locals

    def global_name(self, st, mod, name):
        v = self.module_name(st, mod, name)
        if v is not None:
            return v
        if name in BUILTINS:
            if name in ('True', 'False', 'None'):
                return C({'True': True, 'False': False, 'None': None}[name])
            return ('bi', name)
        if name in ('__name__', '__file__', '__doc__'):
            return ('u', name)
        self.emit(st, ('unresolved', self.site(st), name))
        self.raise_exc(st, 'NameError', name)
        return None

    def module_name(self, st, mod, name):
        b = self.prog.lookup(mod, name)
        if b is None:
            return None
        if b[0] == 'class':
            return ('cls', b[1].name)
        if b[0] == 'func':
            return ('fn', b[1])
        if b[0] == 'mod':
            return ('mod', b[1].name)
        if b[0] == 'ext':
            d = b[1]
            if d.startswith('builtins.') or d.startswith('past.builtins.'):
                n = d.split('.')[-1]
                return ('bi', 'str' if n == 'basestring' else n)
            return ('ext', d)
        owner = self.prog.module_of(mod, name)
        real = self.real_name(mod, name)
        key = (owner.name, real)
        if real in owner.multi and len(owner.multi[real]) > 1:
            vals = owner.multi[real]
            consts = [x for x in vals if x[0] == 'expr' and isinstance(x[1], ast.Constant)]
            if len(consts) == len(vals):
                t = ('s', 'cfg:' + real)
                return t
            if all(x[0] == 'expr' for x in vals):
                return ('s', 'cfg:' + real)
        e = b[1]
        if isinstance(e, ast.Constant):
            return C(e.value)
        try:
            v = ast.literal_eval(e)
            if isinstance(v, (int, float, str, bool, tuple, type(None))):
                return self.from_py(v)
        except Exception:
            v = None
        t = ('g', 'module', owner.name, real)
        if t not in self.glit:
            self.glit[t] = (owner, e)
            if isinstance(e, ast.Dict):
                self.gkind[t] = 'dict'
            elif isinstance(e, ast.List):
                self.gkind[t] = 'list'
            elif isinstance(e, (ast.Set,)) or (isinstance(e, ast.Call) and isinstance(e.func, ast.Name)
                                               and e.func.id in ('set', 'frozenset')):
                self.gkind[t] = 'set'
            elif isinstance(e, ast.Call):
                f = ast.unparse(e.func)
                if f == 're.compile':
                    self.gkind[t] = 'regex'
                elif f in ('dict', 'list'):
                    self.gkind[t] = f
                else:
                    self.gkind[t] = 'any'
        return t

    def real_name(self, mod, name):
        v = mod.ns.get(name)
        n = name
        while v is not None and v[0] == 'from':
            n = v[2]
            m = self.prog.modules.get(v[1])
            v = m.ns.get(n) if m else None
        return n

    def module_literal(self, t):
        """('dict', [(k,v)]) / ('list'|'set', [terms]) of a module-level literal, or None"""
        if t[1] != 'module':
            return None
        c = self.glit.get(t)
        if c is None:
            return None
        owner, e = c
        k = ('lit', t)
        if k in self.glit:
            return self.glit[k]
        r = None
        if isinstance(e, ast.Dict):
            items = []
            ok = True
            for a, b in zip(e.keys, e.values):
                ta, tb = self.static_term(owner, a), self.static_term(owner, b)
                if ta is None or tb is None:
                    ok = False
                    break
                items.append((ta, tb))
            if ok:
                r = ('dict', items)
        else:
            src = e
            if isinstance(e, ast.Call) and len(e.args) == 1:
                src = e.args[0]
            if isinstance(src, (ast.List, ast.Set, ast.Tuple)):
                ts = [self.static_term(owner, x) for x in src.elts]
                if all(x is not None for x in ts):
                    r = ('set' if self.gkind.get(t) == 'set' else 'list', ts)
        self.glit[k] = r
        return r

    def static_term(self, mod, e):
        if isinstance(e, ast.Constant):
            return C(e.value)
        if isinstance(e, ast.Name):
            v = self.module_name(None, mod, e.id)
            return v
        if isinstance(e, ast.Tuple):
            ts = [self.static_term(mod, x) for x in e.elts]
            return ('t',) + tuple(ts) if all(x is not None for x in ts) else None
        if isinstance(e, ast.Attribute):
            return ('ext', ast.unparse(e))
        return None

    # ---- structure ---------------------------------------------------------------------------
    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return [(y, v) for y, v in self.e_List(e, st)]
        return [(x, self.mk_tuple(tuple(vs), x)) for x, vs in self.evals(e.elts, st)]

    def alloc_id(self, st, node, tag=''):
        f = st.frames[-1]
        n = self.intern((f.callpath, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), tag))
        return '%s%d' % (tag[:4], n)

    def new_obj(self, st, node, kind, items=(), extra=None, tag=None):
        oid = self.alloc_id(st, node, tag or kind)
        st.setobj(oid, Obj(kind, tuple(items), extra))
        self.okind[oid] = kind
        t = ('o', oid)
        if self.cfg.keep is not None and kind in ('list', 'dict', 'set'):
            ev = ('lit' if kind == 'list' else 'litd', self.site(st), t, tuple(items))
            if self.cfg.keep(ev):
                st.emit(ev)
        dead = {l for l in st.store if l[1] == t}
        if dead:
            st.drop(dead)
        for s in items:
            if s[0] == 'e':
                self.note_elem(oid, s[1], st)
            elif s[0] == 'kv':
                self.note_elem(oid, s[2], st)
                self.okey.setdefault(oid, set()).add(self.kind(s[1], st))
            elif s[0] == 'star':
                k = self.src_elem_kind(s[1], st)
                if kind == 'dict':
                    self.okey.setdefault(oid, set()).add(k)
                else:
                    self.oelem.setdefault(oid, set()).add(k)
            elif s[0] == 'rep':
                for segs, _, _ in s[3]:
                    for g in segs:
                        if g[0] == 'e':
                            self.note_elem(oid, g[1], st)
        return t

    def e_List(self, e, st):
        out = []
        cur = [(st, [])]
        for x in e.elts:
            nxt = []
            for y, segs in cur:
                if isinstance(x, ast.Starred):
                    for z, v in self.eval(x.value, y):
                        nxt.append((z, segs + list(self.segments(z, v))))
                else:
                    for z, v in self.eval(x, y):
                        nxt.append((z, segs + [('e', v)]))
            cur = nxt
        kind = 'set' if isinstance(e, ast.Set) else 'list'
        return [(x, self.new_obj(x, e, kind, segs)) for x, segs in cur]

    e_Set = e_List

    def e_Dict(self, e, st):
        cur = [(st, [])]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for x, segs in cur:
                if k is None:
                    for y, d in self.eval(v, x):
                        nxt.append((y, segs + list(self.segments(y, d))))
                else:
                    for y, kt in self.eval(k, x):
                        for z, vt in self.eval(v, y):
                            nxt.append((z, segs + [('kv', kt, vt)]))
            cur = nxt
        return [(x, self.new_obj(x, e, 'dict', segs)) for x, segs in cur]

    def segments(self, st, v):
        """contents of an iterable as segments"""
        if v[0] == 't':
            return tuple(('e', x) for x in v[1:])
        if v[0] == 'o':
            ob = st.objs.get(v[1])
            if ob is not None and ob.kind in ('list', 'set'):
                if any(s[0] in ('unk', 'pre') for s in ob.items):
                    return (('star', ('elems', v, self.intern(('ov', ob.items)))),)
                return ob.items
            if ob is not None and ob.kind == 'dict':
                if all(s[0] == 'kv' for s in ob.items):
                    return ob.items
                return (('star', ('keys', v, self.intern(('ov', ob.items)))),)
        if v[0] == 'src':
            return (('star', v[1]),)
        return (('star', self.src_of(st, v)),)

    def keysegs(self, st, v):
        return tuple(('e', s[1]) if s[0] == 'kv' else s for s in self.segments(st, v))

    def e_IfExp(self, e, st):
        out = []
        for x, b in self.cond(e.test, st):
            out.extend(self.eval(e.body if b else e.orelse, x))
        return self.merge_vals(out)

    def e_Lambda(self, e, st):
        fm = self.local_func(e, st)
        oid = self.alloc_id(st, e, 'clo')
        st.setobj(oid, Obj('clo', (), (fm, st.frames[-1].uid, dict(st.frames[-1].env))))
        self.okind[oid] = 'clo'
        return [(st, ('o', oid))]

    def e_NamedExpr(self, e, st):
        out = []
        for x, v in self.eval(e.value, st):
            for y in self.assign(e.target, v, x):
                out.append((y, v))
        return out

    def e_JoinedStr(self, e, st):
        cur = [(st, [])]
        for p in e.values:
            nxt = []
            for x, parts in cur:
                if isinstance(p, ast.Constant):
                    nxt.append((x, parts + [C(p.value)]))
                else:
                    for y, v in self.eval(p.value, x):
                        if p.format_spec is not None or p.conversion not in (-1, 115):
                            nxt.append((y, parts + [('pf', 'fmt', v)]))
                        else:
                            nxt.append((y, parts + [self.to_str(y, v)]))
            cur = nxt
        return [(x, mk_cat(*parts)) for x, parts in cur]

    def to_str(self, st, v):
        if v[0] == 'c':
            return C(str(v[2]))
        if self.kind(v, st) == 'str':
            return v
        return ('pf', 'str', v)

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        out = []
        vals = self.eval(e.value, st) if e.value is not None else [(st, NONE)]
        for x, v in vals:
            h = self.genhandlers.get(x.gens[-1]) if x.gens else None
            if h is None:
                out.append((x, NONE))
                continue
            for y, o in h(x, v):
                if o is None:
                    out.append((y, NONE))
                elif o[0] == 'raise':
                    self.excs[-1].append((y, o))
                else:
                    self.genout.append((y, o))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for x, it in self.eval(e.value, st):
            def body(y, el):
                h = self.genhandlers.get(y.gens[-1]) if y.gens else None
                if h is None:
                    return [(y, None)]
                return h(y, el)
            for y, o in self.iterate(x, e, it, body):
                if o is None or o[0] == 'break':
                    out.append((y, NONE))
                elif o[0] == 'raise':
                    self.excs[-1].append((y, o))
                else:
                    self.genout.append((y, o))
        return out

    # ---- operators ---------------------------------------------------------------------------
    def e_BinOp(self, e, st):
        out = []
        for x, vs in self.evals([e.left, e.right], st):
            out.extend(self.binop(x, e.op, vs[0], vs[1]))
        return out

    def is_str(self, t, st):
        return self.kind(t, st) == 'str'

    def is_list(self, t, st):
        k = self.kind(t, st)
        return k == 'list' or k in LIST_ELEM or k == 'tuple' and t[0] != 't'

    def binop(self, st, op, a, b):
        if self.kind(a, st) in NAMEK or self.kind(b, st) in NAMEK:
            if not isinstance(op, (ast.Mod,)) or self.kind(a, st) in NAMEK:
                self.emit(st, ('arith', self.site(st), a if self.kind(a, st) in NAMEK else b, a, b))
        if isinstance(op, ast.Add):
            if self.is_str(a, st) or self.is_str(b, st):
                if self.is_str(a, st) and self.is_str(b, st) or a[0] == 'cat' or b[0] == 'cat' \
                        or a[0] == 'c' or b[0] == 'c':
                    return [(st, mk_cat(a, b))]
            if a[0] == 't' and b[0] == 't':
                return [(st, self.mk_tuple(a[1:] + b[1:], st))]
            if self.is_list(a, st) or self.is_list(b, st):
                return [(st, self.new_obj(st, self.curnode, 'list', self.segments(st, a) + self.segments(st, b)))]
            return [(st, lin_add(a, b))]
        if isinstance(op, ast.Sub):
            if self.kind(a, st) == 'set':
                return [(st, ('pf', 'setdiff', self.freeze(st, a), self.freeze(st, b)))]
            return [(st, lin_add(a, b, -1))]
        if isinstance(op, ast.Mult):
            if is_num_c(a):
                return [(st, lin_scale(b, a[2]))] if not self.is_str(b, st) and not self.is_list(b, st) \
                    else [(st, ('bin', '*', a, b))]
            if is_num_c(b):
                if self.is_list(a, st):
                    return [(st, ('bin', '*', self.freeze(st, a), b))]
                if is_str_c(a):
                    return [(st, C(a[2] * b[2]))]
                return [(st, lin_scale(a, b[2]))] if not self.is_str(a, st) else [(st, ('bin', '*', a, b))]
            x, y = sorted((a, b), key=key)
            return [(st, ('bin', '*', x, y))]
        if isinstance(op, ast.Mod):
            if self.is_str(a, st) or is_str_c(a):
                return [(st, self.percent(st, a, b))]
            return [(st, ('bin', '%', a, b))]
        names = {ast.Div: '/', ast.FloorDiv: '//', ast.Pow: '**', ast.BitOr: '|', ast.BitAnd: '&',
                 ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
        nm = names.get(type(op), '?')
        if nm == '|' and self.kind(a, st) in DICTS | {'set'}:
            if self.kind(a, st) == 'set':
                return [(st, self.new_obj(st, self.curnode, 'set', self.segments(st, a) + self.segments(st, b)))]
            return [(st, self.new_obj(st, self.curnode, 'dict', self.segments(st, a) + self.segments(st, b)))]
        if is_num_c(a) and is_num_c(b):
            try:
                return [(st, C({'/': lambda p, q: p / q, '//': lambda p, q: p // q, '**': lambda p, q: p ** q,
                                '|': lambda p, q: p | q, '&': lambda p, q: p & q}[nm](a[2], b[2])))]
            except Exception:
                pass
        return [(st, ('bin', nm, self.freeze(st, a), self.freeze(st, b)))]

    def percent(self, st, a, b):
        """printf-style formatting"""
        if not is_str_c(a):
            return ('pf', 'fmt', a, b)
        args = list(b[1:]) if b[0] == 't' else [b]
        parts, s, i, n = [], a[2], 0, 0
        while i < len(s):
            j = s.find('%', i)
            if j < 0:
                parts.append(C(s[i:]))
                break
            parts.append(C(s[i:j]))
            if s[j:j + 2] == '%%':
                parts.append(C('%'))
                i = j + 2
                continue
            k = j + 1
            while k < len(s) and s[k] not in 'sdrifgxXeEcao':
                k += 1
            conv = s[j:k + 1]
            if n >= len(args):
                return ('pf', 'fmt', a, b)
            if conv == '%s':
                parts.append(self.to_str(st, args[n]))
            elif conv == '%d':
                parts.append(('pf', 'str', ('pf', 'int', args[n])))
            else:
                parts.append(('pf', 'fmt', C(conv), args[n]))
            n += 1
            i = k + 1
        return mk_cat(*parts)

    def e_UnaryOp(self, e, st):
        out = []
        if isinstance(e.op, ast.Not):
            for x, b in self.cond(e.operand, st):
                out.append((x, C(not b)))
            return self.merge_vals(out)
        for x, v in self.eval(e.operand, st):
            if isinstance(e.op, ast.USub):
                out.append((x, lin_scale(v, -1)))
            else:
                out.append((x, v if isinstance(e.op, ast.UAdd) else ('bin', '~', v)))
        return out

    def e_BoolOp(self, e, st):
        """value of and/or (used as a value, not only as a condition)"""
        is_and = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, v in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for x in cur:
                for y, t in self.eval(v, x):
                    if last:
                        out.append((y, t))
                        continue
                    for z, b in self.truth(y, t, v):
                        if b == is_and:
                            nxt.append(z)
                        else:
                            out.append((z, C(b) if t[0] == 'b' else t))
            cur = nxt
        return self.merge_vals(out)

    def cond(self, e, st):
        """[(state, bool)] of an expression used as a condition"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur, out = [st], []
            for v in e.values:
                nxt = []
                for x in cur:
                    for y, b in self.cond(v, x):
                        if b == is_and:
                            nxt.append(y)
                        else:
                            out.append((y, not is_and))
                cur = nxt
            out.extend((x, is_and) for x in cur)
            return self.merge_bool(out)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.cond(e.operand, st)]
        out = []
        for x, t in self.eval(e, st):
            out.extend(self.truth(x, t, e))
        return self.merge_bool(out)

    def merge_bool(self, l):
        return self.merge_vals(l)

    def truth(self, st, t, node=None):
        if t[0] == 'c':
            return [(st, bool(t[2]))]
        if t[0] == 'b':
            return self.decide(st, t[1], t[2])
        if t[0] == 't':
            return [(st, len(t) > 1)]
        if t[0] in ('fn', 'cls', 'm', 'ext', 'bi') and not maybe_data(t):
            return [(st, True)]
        if t[0] == 'o':
            ob = st.objs.get(t[1])
            if ob is not None and ob.kind in ('list', 'dict', 'set'):
                if not ob.items:
                    return [(st, False)]
                if any(s[0] in ('e', 'kv') for s in ob.items):
                    return [(st, True)]
                return self.decide(st, ('nonempty', t, self.intern(('ov', ob.items))), True)
            if ob is not None:
                return [(st, True)]
        k = self.kind(t, st)
        if k in CONTAINERS or k in ('list', 'set', 'dict'):
            v = self.ver_of(st, self.sig(t, ('u', 'k'), st))
            return self.decide(st, ('nonempty', t, v), True)
        if k in ('Node', 'Graph'):
            return [(st, True)]
        if t[0] == 'pf' and t[1] == 'len':
            return self.decide(st, self.cmp_atom(t, ZERO, POS), True)
        self.emit(st, ('truth', self.site(st), t, k))
        if k == 'num':
            return self.decide(st, self.cmp_atom(t, ZERO, NZ), True)
        r = self.none_state(st, t)
        if r is True:
            return [(st, False)]
        out = self.decide(st, ('true', t), True)
        for x, b in out:
            if b:
                x.setfact(('none', t), False)
        return out

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            out = []
            for x, vs in self.evals([e.left, e.comparators[0]], st):
                self.curnode = e
                out.extend(self.compare(x, e.ops[0], vs[0], vs[1]))
            return out
        # chain: a < b < c
        out = []
        cur = [(x, v) for x, v in self.eval(e.left, st)]
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            nxt = []
            for x, a in cur:
                for y, b in self.eval(c, x):
                    for z, t in self.compare(y, op, a, b):
                        for w, r in self.truth(z, t):
                            if not r:
                                out.append((w, FALSE))
                            elif i == len(e.ops) - 1:
                                out.append((w, TRUE))
                            else:
                                nxt.append((w, b))
            cur = nxt
        return out

    def is_none(self, st, t):
        r = self.none_state(st, t)
        if r is not None:
            return [(st, r)]
        return self.decide(st, ('none', t), True)

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            ident = isinstance(op, (ast.Is, ast.IsNot))
            if a == NONE or b == NONE:
                x = b if a == NONE else a
                r = self.none_state(st, x)
                if r is not None:
                    return [(st, C(r == pos))]
                return [(st, ('b', ('none', x), pos))]
            if ident:
                self.emit(st, ('ident', self.site(st), a, b, self.kind(a, st), self.kind(b, st)))
            else:
                self.emit(st, ('equal', self.site(st), a, b, self.kind(a, st), self.kind(b, st)))
            for p, q in ((a, b), (b, a)):
                if q in (TRUE, FALSE) and p[0] == 'b':
                    return [(st, ('b', p[1], p[2] == (q[2] == pos)))]
                if q in (TRUE, FALSE) and p[0] == 'c' and p[1] == 'bool':
                    return [(st, C((p == q) == pos))]
            if a[0] == 't' and b[0] == 't' and len(a) == len(b):
                # componentwise
                out, cur = [], [st]
                for p, q in zip(a[1:], b[1:]):
                    nxt = []
                    for x in cur:
                        for y, v in self.decide(x, self.eq_atom(p, q), True):
                            (nxt.append(y) if v else out.append((y, C(not pos))))
                    cur = nxt
                return out + [(x, C(pos)) for x in cur]
            na, nb = self.none_state(st, a), self.none_state(st, b)
            if (na is True) != (nb is True) and na is not None and nb is not None:
                return [(st, C(not pos))]
            if self.distinct(a, b, st):
                return [(st, C(not pos))]
            if a[0] == 'b' or b[0] == 'b':
                # comparison of two truth values
                out = []
                for x, va in self.truth(st, a):
                    for y, vb in self.truth(x, b):
                        out.append((y, C((va == vb) == pos)))
                return out
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            at = self.eq_atom(fa, fb)
            if at[0] == 'const':
                return [(st, C(at[1] == pos))]
            return [(st, ('b', at, pos))]
        if isinstance(op, (ast.In, ast.NotIn)):
            pos = isinstance(op, ast.In)
            if b[0] == 'c' and isinstance(b[2], str) and a[0] == 'c' and isinstance(a[2], str):
                return [(st, C((a[2] in b[2]) == pos))]
            if b[0] == 'src':
                s = b[1]
                while s[0] in ('sorted', 'rev'):
                    s = s[1]
                if s[0] == 'keys':
                    b = s[1]
                elif s[0] in ('elems',):
                    b = s[1]
                else:
                    return [(st, ('b', ('insrc', a, b), pos))]
            self.emit(st, ('member', self.site(st), a, b, self.kind(a, st), self.kind(b, st)))
            return [(x, C(r == pos)) for x, r in self.decide_in(st, a, b)]
        signs = {ast.Lt: NEG, ast.LtE: LE, ast.Gt: POS, ast.GtE: GE}[type(op)]
        self.emit(st, ('order', self.site(st), a, b, self.kind(a, st), self.kind(b, st)))
        at = self.cmp_atom(self.freeze(st, a), self.freeze(st, b), signs)
        if at[0] == 'const':
            return [(st, C(at[1]))]
        return [(st, ('b', at, True))]

    def freeze(self, st, t):
        """value snapshot of a mutable object, for use inside another term"""
        if t[0] == 'o':
            ob = st.objs.get(t[1])
            if ob is not None and ob.kind in ('list', 'set', 'dict'):
                return ('L', ob.kind) + tuple(ob.items) + (t,) if any(s[0] in ('unk', 'pre') for s in ob.items) \
                    else ('L', ob.kind) + tuple(ob.items)
        return t

    # ---- attributes and items ------------------------------------------------------------------
    def e_Attribute(self, e, st):
        out = []
        for x, base in self.eval(e.value, st):
            self.curnode = e
            out.extend(self.attr(x, base, e.attr))
        return out

    def attr(self, st, base, name):
        h = base[0]
        if h == 'ext':
            return [(st, ('ext', base[1] + '.' + name))]
        if h == 'fn' and name == '__code__':
            return [(st, ('code', base[1]))]
        if h == 'code':
            a = base[1].node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if name == 'co_argcount':
                return [(st, C(len(names)))]
            if name == 'co_varnames':
                names += [x.arg for x in a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
                return [(st, ('t',) + tuple(C(x) for x in names))]
            return [(st, ('u', 'code', name))]
        if h == 'fn' and name == '__name__':
            return [(st, C(base[1].name))]
        if h == 'mod':
            m = self.prog.modules[base[1]]
            v = self.module_name(st, m, name)
            if v is None:
                self.emit(st, ('unresolved', self.site(st), base[1] + '.' + name))
                self.raise_exc(st, 'AttributeError')
                return []
            return [(st, v)]
        if h == 'cls':
            c = self.prog.classes[base[1]]
            f = c.lookup(name)
            if f is not None:
                return [(st, ('fn', f))]
            a = c.lookup_attr(name)
            if a is not None:
                t = self.static_term(a[0].module, a[1])
                return [(st, t if t is not None else ('g', 'class', a[0].name, name))]
            if name in ('__name__', '__doc__', '__dict__'):
                return [(st, ('u', 'clsattr', base, name))]
            self.emit(st, ('noattr', self.site(st), base[1], name))
            self.raise_exc(st, 'AttributeError')
            return []
        if h == 'super':
            c = self.prog.classes.get(base[1])
            found = None
            for k in (c.mro()[1:] if c else []):
                if name in k.methods:
                    found = k.methods[name]
                    break
            if found is None:
                if name in ('__init__', '__new__'):
                    return [(st, ('bi', 'object.__init__'))]
                self.emit(st, ('noattr', self.site(st), 'super', name))
                self.raise_exc(st, 'AttributeError')
                return []
            return [(st, ('bm', found, base[2]))]
        r = self.none_state(st, base)
        if r is True or base == NONE:
            self.emit(st, ('nonederef', self.site(st), name))
            self.raise_exc(st, 'AttributeError')
            return []
        c = self.class_of(base, st)
        if c is not None:
            f = c.lookup(name)
            if f is not None and not (('f', base, name) in st.store):
                if any(isinstance(d, ast.Name) and d.id == 'property' for d in f.decos):
                    return self.call_func(st, f, [base], {}, self.curnode)
                if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decos):
                    return [(st, ('fn', f))]
                return [(st, ('m', base, name))]
            if name == '__class__':
                return [(st, ('cls', c.name))]
            if name == '__dict__':
                return [(st, ('u', 'dict', base))]
            a = c.lookup_attr(name)
            if a is not None and ('f', base, name) not in st.store:
                t = self.static_term(a[0].module, a[1])
                return [(st, t if t is not None else ('g', 'class', a[0].name, name))]
            if not self.known_field(c, name):
                self.emit(st, ('noattr', self.site(st), c.name, name))
                self.raise_exc(st, 'AttributeError')
                return []
            return [(st, self.load_field(st, base, name))]
        k = self.kind(base, st)
        if isinstance(k, tuple) and k[0] == 'opt':
            k = k[1]
        ob = st.objs.get(base[1]) if base[0] == 'o' else None
        if k in CONTAINERS or k in ('list', 'dict', 'set', 'str', 'regex') or (ob is not None) or h in ('r', 'g'):
            return [(st, ('m', base, name))]
        if h == 'src' or h == 'c' or h == 'cat' or h == 't' or h == 'pf' or h == 'srep':
            return [(st, ('m', base, name))]
        if h == 'exc':
            return [(st, ('u', 'excattr', base, name))]
        # a value of unknown type: both a method and a field are possible
        return [(st, ('m', base, name))]

    def known_field(self, c, name):
        s = self._fields(c)
        return name in s

    _fc = {}

    def _fields(self, c):
        if c in self._fc:
            return self._fc[c]
        s = set()
        for k in c.mro():
            for f in k.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
                            isinstance(n.value, ast.Name) and f.node.args.args and \
                            n.value.id == f.node.args.args[0].arg:
                        s.add(n.attr)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and \
                            len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                        s.add(n.args[1].value)
        self._fc[c] = s
        return s

    def class_of(self, t, st):
        if t[0] == 'o':
            ob = st.objs.get(t[1])
            k = ob.kind if ob is not None else self.okind.get(t[1], '')
            if k.startswith('inst:'):
                return self.prog.classes.get(k[5:])
            return None
        if t == ('s', 'self') and self.self_class is not None:
            return self.self_class
        k = self.kind(t, st)
        if isinstance(k, tuple) and k[0] == 'opt':
            k = k[1]
        if k == 'Graph':
            return self.prog.classes.get('Graph')
        if k == 'Node':
            return self.prog.classes.get('Node')
        if k == 'DisjointSet':
            return self.prog.classes.get('DisjointSet')
        return None

    self_class = None

    def e_Subscript(self, e, st):
        out = []
        for x, base in self.eval(e.value, st):
            for y, k in self.eval_index(e.slice, x):
                self.curnode = e
                if k[0] == 'slice':
                    out.extend(self.slice(y, base, k))
                    continue
                if base == NONE:
                    self.emit(y, ('nonederef', self.site(y), '[]'))
                    self.raise_exc(y, 'TypeError')
                    continue
                out.extend(self.load_item(y, base, k))
        return out

    def eval_index(self, e, st):
        if isinstance(e, ast.Slice):
            parts = [e.lower, e.upper, e.step]
            cur = [(st, [])]
            for p in parts:
                nxt = []
                for x, vs in cur:
                    if p is None:
                        nxt.append((x, vs + [NONE]))
                    else:
                        nxt.extend((y, vs + [v]) for y, v in self.eval(p, x))
                cur = nxt
            return [(x, ('slice',) + tuple(vs)) for x, vs in cur]
        return self.eval(e, st)

    def e_Slice(self, e, st):
        return self.eval_index(e, st)

    def slice(self, st, base, k):
        _, lo, hi, step = k
        if base[0] == 't' and all(x[0] == 'c' for x in k[1:]):
            return [(st, ('t',) + base[1:][slice(lo[2], hi[2], step[2])])]
        if base[0] == 'c' and isinstance(base[2], str) and all(x[0] == 'c' for x in k[1:]):
            return [(st, C(base[2][slice(lo[2], hi[2], step[2])]))]
        if self.is_str(base, st):
            return [(st, ('pf', 'strslice', base) + k[1:])]
        segs = self.segments(st, base)
        if lo in (NONE, ZERO) and hi == NONE and step == NONE:
            return [(st, self.new_obj(st, self.curnode, 'list', segs))]
        if lo == NONE and hi == NONE and step == C(-1):
            return [(st, self.new_obj(st, self.curnode, 'list', self.rev_segs(segs)))]
        if all(s[0] == 'e' for s in segs) and all(x[0] == 'c' for x in k[1:]):
            return [(st, self.new_obj(st, self.curnode, 'list', segs[slice(lo[2], hi[2], step[2])]))]
        if step == NONE:
            l, h = lo, hi
            if lo[0] == 'c' and (lo[2] or 0) >= 0 and all(s[0] == 'e' for s in segs[:(lo[2] or 0)]) and \
                    len(segs) >= (lo[2] or 0):
                segs = segs[(lo[2] or 0):]
                l = NONE
                if hi == NONE:
                    return [(st, self.new_obj(st, self.curnode, 'list', segs))]
            if l == NONE and hi[0] == 'c' and isinstance(hi[2], int) and hi[2] < 0 and len(segs) >= -hi[2] and \
                    all(s[0] == 'e' for s in segs[hi[2]:]):
                return [(st, self.new_obj(st, self.curnode, 'list', segs[:hi[2]]))]
        src = self.one_src(segs)
        return [(st, self.new_obj(st, self.curnode, 'list', (('star', ('slice', src) + k[1:]),)))]

    def one_src(self, segs):
        if len(segs) == 1 and segs[0][0] == 'star':
            return segs[0][1]
        if len(segs) == 1 and segs[0][0] == 'rep':
            return segs[0]
        return ('cat', tuple(('one', s[1]) if s[0] == 'e' else ('gen', s[1] if s[0] == 'star' else s)
                             for s in segs))

    def rev_segs(self, segs):
        out = []
        for s in reversed(segs):
            if s[0] == 'e':
                out.append(s)
            elif s[0] == 'star':
                out.append(('star', s[1][1] if s[1][0] == 'rev' else ('rev', s[1])))
            elif s[0] == 'rep':
                out.append(('star', ('rev', s)))
            else:
                return (('star', ('rev', self.one_src(segs))),)
        return tuple(out)

    # ---- comprehensions --------------------------------------------------------------------------
    def e_ListComp(self, e, st):
        kind = {'ListComp': 'list', 'SetComp': 'set', 'GeneratorExp': 'list', 'DictComp': 'dict'}[type(e).__name__]
        oid = self.alloc_id(st, e, kind)
        st.setobj(oid, Obj(kind, ()))
        self.okind[oid] = kind
        t = ('o', oid)
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        uid = st.frames[-1].uid
        saved = {n: st.frames[-1].env.get(n) for n in names}
        st.setver(('it', t, '*'), ('n', 0))
        self.log_quiet(st, ('litd', self.site(st), t, ()))

        def level(i, x):
            """[(state, outcome)]"""
            if i == len(e.generators):
                r = []
                if kind == 'dict':
                    for y, kt in self.eval(e.key, x):
                        for z, vt in self.eval(e.value, y):
                            self.quiet_set(z, oid, ('kv', kt, vt))
                            self.log_quiet(z, ('cadd', self.site(z), t, ('kv', kt, vt)))
                            self.note_elem(oid, vt, z)
                            self.okey.setdefault(oid, set()).add(self.kind(kt, z))
                            r.append((z, None))
                else:
                    for y, v in self.eval(e.elt, x):
                        self.quiet_set(y, oid, ('e', v))
                        self.log_quiet(y, ('cadd', self.site(y), t, ('e', v)))
                        self.note_elem(oid, v, y)
                        r.append((y, None))
                return r
            g = e.generators[i]
            r = []
            for y, it in self.eval(g.iter, x):
                def body(z, el, g=g, i=i):
                    out = []
                    for w in self.assign(g.target, el, z):
                        cur = [w]
                        for c in g.ifs:
                            nxt = []
                            for q in cur:
                                for p, b in self.cond(c, q):
                                    if b:
                                        nxt.append(p)
                                    else:
                                        out.append((p, None))
                            cur = nxt
                        for q in cur:
                            out.extend(level(i + 1, q))
                    return out
                self.curnode = g.target
                r.extend(self.iterate(y, g.target, it, body))
            return r
        res = []
        for x, o in level(0, st):
            if o is not None:
                if o[0] == 'raise':
                    self.excs[-1].append((x, o))
                continue
            f = x.frames[-1]
            env = dict(f.env)
            for n in names:
                if saved[n] is None:
                    env.pop(n, None)
                else:
                    env[n] = saved[n]
            x.frames = x.frames[:-1] + (f.with_env(env),)
            res.append((x, t))
        return self.merge_vals(res)

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp
    e_DictComp = e_ListComp

    def log_quiet(self, st, ev):
        if self.cfg.keep is not None and self.cfg.keep(ev):
            st.emit(ev)

    def quiet_set(self, st, oid, seg):
        ob = st.objs[oid]
        st.setobj(oid, ob.with_items(ob.items + (seg,)))

    # ---- calls -----------------------------------------------------------------------------------
    def e_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            f = st.frames[-1].func
            me = st.frames[-1].env.get(f.node.args.args[0].arg) if f is not None and f.node.args.args else None
            cn = f.cls.name if f is not None and f.cls is not None else None
            if e.args:
                for x, v in self.eval(e.args[0], st):
                    if v[0] == 'cls':
                        cn = v[1]
            return [(st, ('super', cn, me))]
        out = []
        for x, fn in self.eval(e.func, st):
            cur = [(x, [], (), [])]
            for a in e.args:
                nxt = []
                for y, args, spread, kws in cur:
                    if isinstance(a, ast.Starred):
                        for z, v in self.eval(a.value, y):
                            if v[0] == 't':
                                nxt.append((z, args + list(v[1:]), spread, kws))
                            elif v[0] == 'o' and z.objs.get(v[1]) is not None and \
                                    all(s[0] == 'e' for s in z.objs[v[1]].items) and \
                                    z.objs[v[1]].kind == 'list':
                                nxt.append((z, args + [s[1] for s in z.objs[v[1]].items], spread, kws))
                            elif self.kind(v, z) == 'edge':
                                nxt.append((z, args + [('i', v, C(0)), ('i', v, C(1))], spread, kws))
                            else:
                                nxt.append((z, args, spread + (v,), kws))
                    else:
                        for z, v in self.eval(a, y):
                            nxt.append((z, args + [v], spread, kws))
                cur = nxt
            kwl = [(y, args, spread, {}, ()) for y, args, spread, _ in cur]
            for k in e.keywords:
                nxt = []
                for y, args, spread, kw, ks in kwl:
                    for z, v in self.eval(k.value, y):
                        if k.arg is None:
                            nxt.append((z, args, spread, kw, ks + (v,)))
                        else:
                            d = dict(kw)
                            d[k.arg] = v
                            nxt.append((z, args, spread, d, ks))
                kwl = nxt
            for y, args, spread, kw, ks in kwl:
                self.curnode = e
                out.extend(self.call_term(y, fn, args, kw, e, spread, ks))
        return self.merge_vals(out)

    def call_term(self, st, fn, args, kw, node, spread=(), kwspread=()):
        h = fn[0]
        if h == 'm':
            return self.call_method(st, fn[1], fn[2], args, kw, node, spread, kwspread)
        if h == 'bm':
            return self.call_func(st, fn[1], [fn[2]] + list(args), kw, node, None, None, spread, kwspread)
        if h == 'fn':
            fm = fn[1]
            if len(fn) > 2:
                return self.call_raw(st, fm, args, kw, node, spread, kwspread)
            if fm.cls is not None and args and fm.name in self.cfg.opaque and len(st.frames) > 1:
                return self.opaque_call(st, fm.name, args[0], args[1:], kw, node, kwspread)
            if fm.cls is None and fm.name in self.cfg.opaque and len(st.frames) > 1:
                return self.opaque_call(st, fm.name, NONE, args, kw, node, kwspread)
            return self.call_func(st, fm, list(args), kw, node, None, None, spread, kwspread)
        if h == 'clo':
            ob = fn[1]
            fm, uid, env = ob.extra
            return self.call_func(st, fm, list(args), kw, node, None, (uid, env), spread, kwspread)
        if h == 'o':
            ob = st.objs.get(fn[1])
            if ob is not None and ob.kind == 'clo':
                fm, uid, env = ob.extra
                return self.call_func(st, fm, list(args), kw, node, None, (uid, env), spread, kwspread)
            c = self.class_of(fn, st)
            if c is not None and c.lookup('__call__'):
                return self.call_func(st, c.lookup('__call__'), [fn] + list(args), kw, node)
        if h == 'cls':
            return self.construct(st, fn[1], args, kw, node, spread, kwspread)
        if h == 'bi':
            return self.builtin(st, fn[1], args, kw, node, kwspread)
        if h == 'ext':
            return self.external(st, fn[1], args, kw, node, kwspread)
        if h == 'partial':
            d = dict(fn[3])
            d.update(kw)
            return self.call_term(st, fn[1], list(fn[2]) + list(args), d, node, spread, kwspread)
        if h == 'attrgetter':
            return [(st, self.load_field(st, args[0], fn[1]))]
        if h == 'itemgetter':
            return self.load_item(st, args[0], fn[1])
        # unknown callable
        self.emit(st, ('ecall', self.site(st), fn, '()', tuple(args), tuple(sorted(kw.items())), None))
        for a in args:
            self.havoc_obj(st, a, ('X',) + self.token(st))
        return [(st, ('r', 'call', fn) + tuple(self.freeze(st, a) for a in args) + self.token(st))]

    def call_raw(self, st, fm, args, kw, node, spread, kwspread):
        saved, fm.decos = fm.decos, []
        try:
            return self.call_func(st, fm, list(args), kw, node, None, None, spread, kwspread)
        finally:
            fm.decos = saved

    def opaque_call(self, st, name, recv, args, kw, node, kwspread=()):
        h = self.cfg.opaque[name]
        ret = ('r', 'op', name, recv) + tuple(self.freeze(st, a) for a in args) + self.token(st)
        self.emit(st, ('call', self.site(st), recv, name, tuple(args), tuple(sorted(kw.items())), ret)
                  + ((tuple(kwspread),) if kwspread else ()))
        if h is None:
            return [(st, NONE)]
        return h(self, st, recv, args, kw, ret)

    def call_method(self, st, base, name, args, kw, node, spread=(), kwspread=()):
        c = self.class_of(base, st)
        if c is not None:
            if name in self.cfg.opaque:
                f = c.lookup(name)
                if f is not None:
                    return self.opaque_call(st, name, base, args, kw, node, kwspread)
            f = c.lookup(name)
            if f is not None:
                if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in f.decos):
                    return self.call_func(st, f, [('cls', c.name)] + list(args), kw, node)
                return self.call_func(st, f, [base] + list(args), kw, node, None, None, spread, kwspread)
        ob = st.objs.get(base[1]) if base[0] == 'o' else None
        k = self.kind(base, st)
        if isinstance(k, tuple) and k[0] == 'opt':
            k = k[1]
        if isinstance(k, tuple) and k[0] in ('list', 'dict'):
            k = k[0]
        if ob is not None and ob.kind in ('list', 'dict', 'set'):
            k = ob.kind
        if k == 'list' or k in LIST_ELEM or k == 'set':
            return self.list_method(st, base, name, args, kw)
        if k in DICTS:
            return self.dict_method(st, base, name, args, kw)
        if base[0] == 'src':
            t = self.new_obj(st, node, 'list', (('star', base[1]),))
            return self.list_method(st, t, name, args, kw)
        if base[0] == 't' and name == 'index' and len(args) == 1 and args[0] in base[1:] \
                and all(x[0] == 'c' for x in base[1:]):
            return [(st, C(base[1:].index(args[0])))]
        if base[0] == 't':
            return [(st, ('pf', 'tuple.' + name, base) + tuple(args))]
        if k == 'str' or base[0] in ('cat', 'srep') or is_str_c(base):
            return self.str_method(st, base, name, args, kw, node)
        if k == 'regex':
            return [(st, ('pf', 're.' + name, base) + tuple(args))]
        if name in ('get',) and k == 'any' and len(args) in (1, 2):
            return self.dict_method(st, base, name, args, kw)
        return self.ext_method(st, base, name, args, kw, node)

    # ---- external objects --------------------------------------------------------------------------
    def ext_method(self, st, base, name, args, kw, node):
        """a method of an object of unknown or external class"""
        pure = name in PURE_EXT
        sg = ('ext', base)
        v = st.ver.get(sg, 0)
        fa = tuple(self.freeze(st, a) for a in args)
        fk = tuple(sorted((k, self.freeze(st, a)) for k, a in kw.items()))
        ret = ('r', 'ext', name, base) + fa + fk + ((v,) if v else ())
        self.emit(st, ('ecall', self.site(st), base, name, tuple(args), fk, ret))
        if not pure:
            tok = ('w',) + self.token(st)
            st.setver(sg, tok)
            ret = ret + tok
        k = self.kind(base, st)
        if name in ('peek', 'pop', 'dequeue') and isinstance(k, str) and (k.startswith('ext:') or k == 'q'):
            if not args:
                self.rkind[ret] = 'name'
        if name == 'get_priority':
            self.rkind[ret] = ('opt', 'num')
        if name == 'isEmpty':
            self.rkind[ret] = 'bool'
        if self.cfg.ext_raises:
            self.ext_raise(st, name, base, args, fk)
        return [(st, ret)]

    def ext_raise(self, st, name, base, args=(), kw=()):
        h = getattr(self.cfg, 'ext_exc', None)
        excs = h(name, base, self, st, args, dict(kw)) if h else ()
        for exc in excs:
            y = st.fork()
            self.emit(y, ('fault', self.site(y), name, exc))
            self.raise_exc(y, exc, ('fault', name))

    def external(self, st, dotted, args, kw, node, kwspread=()):
        last = dotted.split('.')[-1]
        if dotted.startswith('builtins.') or dotted.startswith('past.builtins.'):
            return self.builtin(st, last, args, kw, node)
        if dotted in ('copy.deepcopy', 'copy.copy'):
            return self.copy(st, args[0], node, dotted == 'copy.deepcopy')
        if last == 'old_div':
            return self.binop(st, ast.Div(), args[0], args[1])
        if dotted == 'functools.wraps':
            return [(st, ('bi', 'identity'))]
        if dotted == 'functools.partial':
            return [(st, ('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items()))))]
        if dotted == 'operator.itemgetter' and len(args) == 1:
            return [(st, ('itemgetter', args[0]))]
        if dotted == 'operator.attrgetter' and len(args) == 1 and args[0][0] == 'c':
            return [(st, ('attrgetter', args[0][2]))]
        if dotted.startswith('operator.') and len(args) == 2:
            m = {'add': ast.Add, 'sub': ast.Sub, 'mul': ast.Mult, 'truediv': ast.Div}.get(last)
            if m:
                return self.binop(st, m(), args[0], args[1])
        if dotted in ('itertools.chain',):
            segs = ()
            for a in args:
                segs += self.keysegs(st, a)
            return [(st, self.new_obj(st, node, 'list', segs))]
        if dotted == 'itertools.chain.from_iterable':
            pass
        if dotted == 'collections.OrderedDict' and not args:
            return [(st, self.new_obj(st, node, 'dict', ()))]
        if dotted == 'collections.deque':
            return [(st, self.new_obj(st, node, 'list', self.segments(st, args[0]) if args else (), tag='deque'))]
        if dotted == 'itertools.product' and len(args) == 1 and kw.get('repeat') == C(2):
            args = [args[0], args[0]]
        fa = tuple(self.freeze(st, a) for a in args)
        fk = tuple(sorted((k, self.freeze(st, a)) for k, a in kw.items()))
        ret = ('r', 'ext', dotted) + fa + fk + self.token(st)
        if last[:1].isupper() and not dotted.startswith('PIL_Image') and last != 'Popen':
            # construction of an external class: a fresh object
            oid = self.alloc_id(st, node, 'ext:' + last)
            st.setobj(oid, Obj('ext:' + last, (), (dotted, fa, fk)))
            self.okind[oid] = 'ext:' + last
            st.setver(('ext', ('o', oid)), ('n', 0))
            ret = ('o', oid)
        self.emit(st, ('ecall', self.site(st), ('ext', dotted), last, tuple(args), fk, ret))
        if self.cfg.ext_raises:
            self.ext_raise(st, dotted, ('ext', dotted), args, fk)
        if dotted == 'sys.exit' or last == 'exit' and dotted in ('os._exit', 'sys.exit'):
            self.raise_exc(st, 'SystemExit')
            return []
        if dotted == 'tempfile.mkstemp':
            return [(st, ('t', ('r', 'fd', ret), ('r', 'tmpname', ret)))]
        for a in args:
            if a[0] == 'o' and st.objs.get(a[1]) is not None and st.objs[a[1]].kind in ('list', 'dict', 'set') \
                    and not dotted.startswith(('subprocess', 'os.', 're.', 'heapq.n')):
                self.havoc_obj(st, a, ('X',) + self.token(st))
        return [(st, ret)]

    def copy(self, st, v, node, deep):
        self.emit(st, ('copy', self.site(st), v, deep))
        ob = st.objs.get(v[1]) if v[0] == 'o' else None
        if v[0] == 'c':
            return [(st, v)]
        if ob is not None and ob.kind in ('list', 'dict', 'set'):
            return [(st, self.new_obj(st, node, ob.kind, ob.items if not any(
                s[0] in ('unk', 'pre') for s in ob.items) else self.segments(st, v), tag='copy'))]
        k = self.kind(v, st)
        if v[0] == 'g':
            lit = self.module_literal(v)
            if lit is not None:
                if lit[0] == 'dict':
                    return [(st, self.new_obj(st, node, 'dict', [('kv', a, b) for a, b in lit[1]], tag='copy'))]
                return [(st, self.new_obj(st, node, lit[0], [('e', a) for a in lit[1]], tag='copy'))]
        if k in DICTS:
            return [(st, self.new_obj(st, node, 'dict', (('star', self.src_of(st, v)),), tag='copy'))]
        if k in LIST_ELEM or k == 'list':
            return [(st, self.new_obj(st, node, 'list', (('star', self.src_of(st, v)),), tag='copy'))]
        if self.class_of(v, st) is not None:
            oid = self.alloc_id(st, node, 'copyinst')
            c = self.class_of(v, st)
            st.setobj(oid, Obj('inst:' + c.name, (), ('copyof', v, deep)))
            self.okind[oid] = 'inst:' + c.name
            return [(st, ('o', oid))]
        return [(st, ('r', 'copy', v) + self.token(st))]

    # ---- construction ------------------------------------------------------------------------------
    def construct(self, st, cname, args, kw, node, spread=(), kwspread=()):
        c = self.prog.classes[cname]
        if any(b in ('Exception', 'ValueError', 'BaseException', 'KeyError') for b in c.ext_bases()):
            return [(st, ('exc', cname))]
        oid = self.alloc_id(st, node, 'inst' + cname)
        st.setobj(oid, Obj('inst:' + cname))
        self.okind[oid] = 'inst:' + cname
        t = ('o', oid)
        dead = {l for l in st.store if l[1] == t}
        if dead:
            st.drop(dead)
        self.emit(st, ('new', self.site(st), cname, t, tuple(args), tuple(sorted(kw.items()))))
        if self.cfg.model_ctor and c.is_subclass('Graph') and not kwspread:
            ty = kw.get('type')
            if c.name != 'Graph' and ty is None:
                ty = C('digraph')
            st.put(('f', t, 'graph_type'), ty if ty is not None else C('graph'))
            for a in ('nodes', 'edge_attr', 'neighbors', 'in_neighbors', 'attr', 'cluster'):
                st.setfact(('empty', ('f', t, a)), True)
            return [(st, t)]
        init = c.lookup('__init__')
        if init is None:
            return [(st, t)]
        return [(x, t) for x, _ in self.call_func(st, init, [t] + list(args), kw, node, None, None, spread, kwspread)]

    # ---- lists -------------------------------------------------------------------------------------
    def mut_unknown(self, st, base, name, args):
        self.emit(st, ('mut', self.site(st), base, name, tuple(args)))
        ob = st.objs.get(base[1]) if base[0] == 'o' else None
        if ob is not None:
            st.setobj(base[1], ob.with_items((('unk', self.token(st)),)))
            st.setver(('it', base, '*'), ('w',) + self.token(st))
            st.drop({l for l in st.store if l[0] == 'i' and l[1] == base})
            return
        sg = self.sig(base, ('u', 'any'), st)
        if sg[2] == '*' and sg[1] in ('nattr', 'eattr', 'gattr', 'cattr', 'cnattr', 'clus'):
            st.setver(('it', sg[1], None), ('w',) + self.token(st))
        else:
            st.setver(sg, ('w',) + self.token(st))
        kill = {l for l in st.store if l[0] == 'i' and self.sig(l[1], l[2], st)[1] == sg[1]}
        if kill:
            st.drop(kill)

    def list_method(self, st, base, name, args, kw):
        ob = st.objs.get(base[1]) if base[0] == 'o' else None
        tok = self.token(st)
        if name in LIST_MUT or name in SET_MUT or name in ('appendleft', 'popleft'):
            self.emit(st, ('mut', self.site(st), base, name, tuple(args)))
            if ob is None:
                sg = self.sig(base, ('u', 'any'), st)
                v = self.ver_of(st, sg)
                if not self.untracked(sg):
                    st.setver(sg, ('w',) + tok)
                if name == 'remove' and self.cfg.implicit:
                    y = st.fork()
                    y.ver = dict(y.ver)
                    self.raise_exc(y, 'ValueError')
                if name in ('pop', 'popleft'):
                    r = ('r', 'pop', base) + ((v,) if v else ()) + tok
                    self.rkind[r] = LIST_ELEM.get(self.kind(base, st), 'any')
                    return [(st, r)]
                return [(st, NONE)]
            items = list(ob.items)
            ret = NONE
            if name in ('append', 'add'):
                self.note_elem(base[1], args[0], st)
                items.append(('e', args[0]))
            elif name == 'extend' or name == 'update':
                for a in args:
                    for s in self.keysegs(st, a):
                        if s[0] == 'e':
                            self.note_elem(base[1], s[1], st)
                        items.append(s)
            elif name == 'insert' and args[0] == ZERO or name == 'appendleft':
                v = args[-1]
                self.note_elem(base[1], v, st)
                if items and items[0][0] == 'pre':
                    items = [('unk', tok)]
                else:
                    items.insert(0, ('e', v))
            elif name == 'insert':
                self.note_elem(base[1], args[1], st)
                j = args[0][2] if args[0][0] == 'c' else None
                if isinstance(j, int) and 0 <= j <= len(items) and all(s[0] == 'e' for s in items[:j]):
                    items.insert(j, ('e', args[1]))
                else:
                    items = [('unk', tok)]
            elif name in ('pop', 'popleft'):
                if name == 'pop' and not args and items and items[-1][0] == 'e':
                    ret = items[-1][1]
                    items = items[:-1]
                elif (name == 'popleft' or args == [ZERO]) and items and items[0][0] == 'e':
                    ret = items[0][1]
                    items = items[1:]
                else:
                    ret = ('r', 'pop', base, self.intern(('ov', ob.items))) + tok
                    self.rkind[ret] = self.elem_kind_of_obj(base[1])
                    if ob.kind == 'list' and items and items[-1][0] in ('rep', 'star') and not args:
                        items = [('star', ('slice', self.one_src(tuple(items)), NONE, C(-1), NONE))]
                    else:
                        items = [('unk', tok)]
            elif name == 'clear':
                items = []
            elif name == 'reverse':
                items = list(self.rev_segs(tuple(items)))
            elif name == 'sort':
                items = [('star', ('sorted', self.one_src(tuple(items)), kw.get('key', NONE),
                                   kw.get('reverse', FALSE)))] if items else []
            elif name == 'remove' or name == 'discard':
                if args and ('e', args[0]) in items:
                    items.remove(('e', args[0]))
                else:
                    items = [('unk', tok)]
            else:
                items = [('unk', tok)]
            st.setobj(base[1], ob.with_items(items))
            st.setver(('it', base, '*'), ('w',) + tok)
            return [(st, ret)]
        if name == 'copy':
            return [(st, self.new_obj(st, self.curnode, ob.kind if ob is not None else 'list',
                                      self.segments(st, base)))]
        if name in ('index', 'count'):
            self.emit(st, ('equal', self.site(st), base, args[0], 'any', self.kind(args[0], st)))
            return [(st, ('pf', name, self.freeze(st, base)) + tuple(args))]
        if name in ('union',):
            segs = self.segments(st, base)
            for a in args:
                segs += self.segments(st, a)
            return [(st, self.new_obj(st, self.curnode, 'set', segs))]
        if name in ('intersection', 'difference', 'issubset', 'issuperset', 'isdisjoint', 'symmetric_difference'):
            return [(st, ('pf', 'set.' + name, self.freeze(st, base)) + tuple(self.freeze(st, a) for a in args))]
        self.emit(st, ('noattr', self.site(st), 'list', name))
        self.raise_exc(st, 'AttributeError')
        return []

    # ---- dictionaries ----------------------------------------------------------------------------------
    def dict_method(self, st, base, name, args, kw):
        ob = st.objs.get(base[1]) if base[0] == 'o' else None
        v = self.ver_of(st, self.sig(base, ('u', 'k'), st)) if ob is None else self.intern(('ov', ob.items))
        vt = (v,) if v else ()
        if name == 'keys':
            if ob is not None and all(s[0] == 'kv' for s in ob.items):
                return [(st, self.new_obj(st, self.curnode, 'list', [('e', s[1]) for s in ob.items]))]
            return [(st, ('src', ('keys', base) + vt))]
        if name == 'values':
            return [(st, ('src', ('values', base) + vt))]
        if name == 'items':
            return [(st, ('src', ('items', base) + vt))]
        if name == 'get':
            out = []
            self.emit(st, ('member', self.site(st), args[0], base, self.kind(args[0], st), self.kind(base, st)))
            for x, p in self.decide_in(st, args[0], base):
                if p:
                    out.extend(self.load_item(x, base, args[0]))
                else:
                    out.append((x, args[1] if len(args) > 1 else NONE))
            return out
        if name == 'setdefault':
            out = []
            for x, p in self.decide_in(st, args[0], base):
                if p:
                    out.extend(self.load_item(x, base, args[0]))
                else:
                    self.store_item(x, base, args[0], args[1] if len(args) > 1 else NONE)
                    out.append((x, args[1] if len(args) > 1 else NONE))
            return out
        if name == 'pop':
            out = []
            if len(args) > 1:
                for x, p in self.decide_in(st, args[0], base):
                    if p:
                        for y, val in self.load_item(x, base, args[0]):
                            out.extend((z, val) for z in self.del_item(y, base, args[0]))
                    else:
                        out.append((x, args[1]))
                return out
            for y, val in self.load_item(st, base, args[0]):
                out.extend((z, val) for z in self.del_item(y, base, args[0]))
            return out
        if name == 'copy':
            return self.copy(st, base, self.curnode, False)
        if name == 'update':
            cur = [st]
            for a in args:
                nxt = []
                for x in cur:
                    segs = self.segments(x, a)
                    if all(s[0] == 'kv' for s in segs):
                        for s in segs:
                            self.store_item(x, base, s[1], s[2])
                        nxt.append(x)
                    else:
                        self.emit(x, ('mut', self.site(x), base, 'update', (a,)))
                        if ob is not None:
                            o2 = x.objs[base[1]]
                            x.setobj(base[1], o2.with_items(o2.items + tuple(
                                ('star', ('keys', a)) if s[0] != 'kv' else s for s in segs)))
                            x.setver(('it', base, '*'), ('w',) + self.token(x))
                            x.drop({l for l in x.store if l[0] == 'i' and l[1] == base})
                        else:
                            self.mut_unknown(x, base, 'update', (a,))
                        nxt.append(x)
                cur = nxt
            for x in cur:
                for k, val in kw.items():
                    self.store_item(x, base, C(k), val)
            return [(x, NONE) for x in cur]
        if name in ('clear', 'popitem'):
            self.mut_unknown(st, base, name, args)
            if ob is not None and name == 'clear':
                st.setobj(base[1], ob.with_items(()))
            return [(st, ('r', name, base) + self.token(st))]
        if name == 'fromkeys':
            pass
        if ob is not None and ob.kind == 'dict' or self.kind(base, st) in DICTS:
            self.emit(st, ('noattr', self.site(st), 'dict', name))
            self.raise_exc(st, 'AttributeError')
            return []
        return [(st, ('r', 'dm', name, base) + tuple(args))]

    # ---- strings ---------------------------------------------------------------------------------------
    def str_method(self, st, base, name, args, kw, node):
        if name == 'join':
            return [(st, self.join_str(st, base, args[0]))]
        if name == 'format':
            return [(st, self.str_format(st, base, args, kw))]
        if all(a[0] == 'c' for a in args) and base[0] == 'c' and not kw:
            try:
                v = getattr(base[2], name)(*[a[2] for a in args])
                if isinstance(v, (str, int, bool)):
                    return [(st, C(v))]
            except Exception:
                pass
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isidentifier'):
            return [(st, ('b', ('str.' + name, base) + tuple(args), True))]
        r = ('pf', 'str.' + name, base) + tuple(self.freeze(st, a) for a in args)
        return [(st, r)]

    def join_str(self, st, sep, it):
        if is_str_c(it):
            return ('pf', 'joinstr', sep, it)
        segs = self.keysegs(st, it)
        parts = []
        for i, s in enumerate(segs):
            if i and sep != C(''):
                parts.append(sep)
            if s[0] == 'e':
                parts.append(s[1])
            elif s[0] == 'rep':
                alts = []
                for sg, facts, signs in s[3]:
                    ps = []
                    for j, g in enumerate(sg):
                        if j and sep != C(''):
                            ps.append(sep)
                        ps.append(g[1] if g[0] == 'e' else self.nested_rep(g, sep))
                    alts.append((tuple(ps), facts, signs))
                parts.append(('srep', s[1], s[2], tuple(alts)) + ((sep,) if sep != C('') else ()))
            else:
                parts.append(('sstar', s[1]) + ((sep,) if sep != C('') else ()))
        if len(parts) == 1:
            return ('cat', C(''), parts[0]) if parts[0][0] in ('srep', 'sstar') else parts[0]
        return mk_cat(*parts)

    def nested_rep(self, g, sep):
        if g[0] == 'rep':
            alts = []
            for sg, facts, signs in g[3]:
                alts.append((tuple(x[1] if x[0] == 'e' else self.nested_rep(x, sep) for x in sg), facts, signs))
            return ('srep', g[1], g[2], tuple(alts))
        return ('sstar', g[1] if len(g) > 1 else g)

    def str_format(self, st, base, args, kw):
        if not is_str_c(base):
            return ('pf', 'fmt', base) + tuple(args)
        import string
        parts, n = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(base[2]):
                parts.append(C(lit))
                if field is None:
                    continue
                if spec or conv not in (None, 's'):
                    parts.append(('pf', 'fmt', C(field)) + tuple(args))
                    continue
                if field == '':
                    parts.append(self.to_str(st, args[n]))
                    n += 1
                elif field.isdigit():
                    parts.append(self.to_str(st, args[int(field)]))
                elif field in kw:
                    parts.append(self.to_str(st, kw[field]))
                else:
                    return ('pf', 'fmt', base) + tuple(args)
        except Exception:
            return ('pf', 'fmt', base) + tuple(args)
        return mk_cat(*parts)

    # ---- builtins -----------------------------------------------------------------------------------------
    def builtin(self, st, name, args, kw, node, kwspread=()):
        m = getattr(self, 'b_' + name, None)
        if m is not None:
            return m(st, args, kw, node)
        if name == 'identity':
            return [(st, args[0])]
        if name == 'object.__init__':
            return [(st, NONE)]
        ex = getattr(builtins, name, None)
        if isinstance(ex, type) and issubclass(ex, BaseException):
            return [(st, ('exc', name))]
        fa = tuple(self.freeze(st, a) for a in args)
        self.emit(st, ('bcall', self.site(st), name, tuple(args), tuple(self.kind(a, st) for a in args)))
        if name == 'exit' or name == 'quit':
            self.raise_exc(st, 'SystemExit')
            return []
        if name == 'open':
            ret = ('r', 'ext', 'open') + fa + self.token(st)
            self.emit(st, ('ecall', self.site(st), ('ext', 'open'), 'open', tuple(args), (), ret))
            if self.cfg.ext_raises:
                self.ext_raise(st, 'open', ('ext', 'open'), args)
            return [(st, ret)]
        if name in ('id', 'hash', 'input', 'vars', 'globals', 'locals', 'eval', 'exec'):
            return [(st, ('r', 'bi', name) + fa + self.token(st))]
        return [(st, ('pf', name) + fa)]

    def b_print(self, st, args, kw, node):
        self.emit(st, ('print', self.site(st), tuple(args)))
        return [(st, NONE)]

    def b_len(self, st, args, kw, node):
        a = args[0]
        if a[0] == 't':
            return [(st, C(len(a) - 1))]
        ob = st.objs.get(a[1]) if a[0] == 'o' else None
        if ob is not None and ob.kind in ('list', 'dict', 'set'):
            if all(s[0] in ('e', 'kv') for s in ob.items) and (ob.kind == 'list' or len(ob.items) <= 1):
                return [(st, C(len(ob.items)))]
            if len(ob.items) == 1 and ob.items[0][0] == 'star':
                s = ob.items[0][1]
                while s[0] in ('sorted', 'rev'):
                    s = s[1]
                if s[0] in ('keys', 'elems') and len(s) == 2:
                    return [(st, ('pf', 'len', s[1]))]
            if ob.items and ob.items[-1][0] == 'e' and ob.kind == 'list':
                pass
            return [(st, ('pf', 'len', self.freeze(st, a)))]
        if a[0] == 'c' and isinstance(a[2], str):
            return [(st, C(len(a[2])))]
        v = self.ver_of(st, self.sig(a, ('u', 'k'), st)) if a[0] in ('f', 'i') else 0
        return [(st, ('pf', 'len', a) + ((v,) if v else ()))]

    def b_list(self, st, args, kw, node):
        if not args:
            return [(st, self.new_obj(st, node, 'list', ()))]
        return self.collect(st, args[0], node, 'list')

    def collect(self, st, a, node, kind):
        ob = st.objs.get(a[1]) if a[0] == 'o' else None
        if ob is not None and ob.kind == 'gen':
            t = self.new_obj(st, node, kind, (), tag='gl')

            def handler(y, v):
                self.quiet_set(y, t[1], ('e', v))
                self.note_elem(t[1], v, y)
                return [(y, None)]
            return [(x, t) for x, o in self.run_gen(st, a, handler) if o is None]
        t = self.new_obj(st, node, kind, self.keysegs(st, a))
        if kind == 'list' and self.set_kind(st, a) is not None:
            self.setlists[t[1]] = True
        return [(st, t)]

    def b_tuple(self, st, args, kw, node):
        if not args:
            return [(st, ('t',))]
        out = []
        for x, t in self.collect(st, args[0], node, 'list'):
            ob = x.objs[t[1]]
            if all(s[0] == 'e' for s in ob.items):
                out.append((x, self.mk_tuple(tuple(s[1] for s in ob.items), x)))
            else:
                out.append((x, t))
        return out

    def b_set(self, st, args, kw, node):
        if not args:
            return [(st, self.new_obj(st, node, 'set', ()))]
        return self.collect(st, args[0], node, 'set')

    b_frozenset = b_set

    def b_dict(self, st, args, kw, node):
        segs = ()
        if args:
            ob = st.objs.get(args[0][1]) if args[0][0] == 'o' else None
            if ob is not None and ob.kind == 'list':
                if all(s[0] == 'e' and s[1][0] == 't' and len(s[1]) == 3 for s in ob.items):
                    segs = tuple(('kv', s[1][1], s[1][2]) for s in ob.items)
                elif len(ob.items) == 1 and ob.items[0][0] == 'rep':
                    segs = (('rep',) + ob.items[0][1:3] + (tuple(
                        (tuple(('kv', g[1][1], g[1][2]) if g[0] == 'e' and g[1][0] == 't' else g for g in sg), f, s)
                        for sg, f, s in ob.items[0][3]),),)
                else:
                    segs = (('unk', self.token(st)),)
            else:
                segs = self.segments(st, args[0])
        segs = tuple(segs) + tuple(('kv', C(k), v) for k, v in kw.items())
        return [(st, self.new_obj(st, node, 'dict', segs))]

    def b_range(self, st, args, kw, node):
        if len(args) == 1:
            args = [ZERO] + list(args)
        return [(st, ('src', ('range',) + tuple(args)))]

    b_xrange = b_range

    def b_sorted(self, st, args, kw, node):
        segs = self.keysegs(st, args[0])
        if not segs:
            return [(st, self.new_obj(st, node, 'list', ()))]
        self.emit(st, ('sort', self.site(st), args[0], kw.get('key', NONE), self.seg_kind(st, segs)))
        k = kw.get('key', NONE)
        return [(st, self.new_obj(st, node, 'list', (('star', ('sorted', self.one_src(segs), k,
                                                             kw.get('reverse', FALSE))),)))]

    def seg_kind(self, st, segs):
        ks = set()
        for s in segs:
            if s[0] == 'e':
                ks.add(self.kind(s[1], st))
            elif s[0] == 'star':
                ks.add(self.src_elem_kind(s[1], st))
            elif s[0] == 'rep':
                for sg, _, _ in s[3]:
                    for g in sg:
                        if g[0] == 'e':
                            ks.add(self.kind(g[1], st))
            else:
                ks.add('any')
        return next(iter(ks)) if len(ks) == 1 else 'any'

    def b_reversed(self, st, args, kw, node):
        return [(st, self.new_obj(st, node, 'list', self.rev_segs(self.keysegs(st, args[0]))))]

    def b_iter(self, st, args, kw, node):
        return [(st, ('src', self.one_src(self.keysegs(st, args[0]))))] if len(args) == 1 else \
            [(st, ('u', 'iter'))]

    def b_next(self, st, args, kw, node):
        a = args[0]
        segs = self.keysegs(st, a)
        # only the first element of a fresh iterator is understood
        if len(segs) == 1 and segs[0][0] in ('star', 'rep'):
            src = segs[0][1] if segs[0][0] == 'star' else segs[0]
            lid = self.lid(st, node)
            self.loopmem.setdefault(lid, {'vars': set(), 'sigs': set(), 'objs': set(), 'totals': set()})
            out = []
            st2 = st.fork()
            for x, e in self.elements(st, src, lid):
                out.append((x, e))
            if len(args) > 1:
                out.append((st2, args[1]))
            return out
        if segs and segs[0][0] == 'e':
            return [(st, segs[0][1])]
        if not segs and len(args) > 1:
            return [(st, args[1])]
        return [(st, ('u', 'next', a))]

    def b_zip(self, st, args, kw, node):
        segs = [self.keysegs(st, a) for a in args]
        if segs and all(all(s[0] == 'e' for s in sg) for sg in segs):
            return [(st, self.new_obj(st, node, 'list', [('e', self.mk_tuple(tuple(x[1] for x in xs), st))
                                                         for xs in zip(*segs)]))]
        return [(st, ('src', ('zip', tuple(self.one_src(sg) for sg in segs))))]

    def b_enumerate(self, st, args, kw, node):
        start = args[1] if len(args) > 1 else kw.get('start', ZERO)
        segs = self.keysegs(st, args[0])
        if segs and all(s[0] == 'e' for s in segs) and is_num_c(start):
            return [(st, self.new_obj(st, node, 'list', [('e', ('t', C(start[2] + i), s[1]))
                                                         for i, s in enumerate(segs)]))]
        return [(st, ('src', ('enum', self.one_src(segs), start)))]

    def b_map(self, st, args, kw, node):
        if len(args) == 2:
            return self.mapfilter(st, args[0], args[1], node, False)
        return [(st, ('u', 'map'))]

    def b_filter(self, st, args, kw, node):
        return self.mapfilter(st, args[0], args[1], node, True)

    def mapfilter(self, st, fn, it, node, filt):
        oid = self.alloc_id(st, node, 'list')
        st.setobj(oid, Obj('list', ()))
        self.okind[oid] = 'list'

        def body(y, el):
            out = []
            if filt and fn == NONE:
                for z, b in self.truth(y, el):
                    if b:
                        self.quiet_set(z, oid, ('e', el))
                    out.append((z, None))
                return out
            for z, v in self.call_term(y, fn, [el], {}, node):
                if filt:
                    for w, b in self.truth(z, v):
                        if b:
                            self.quiet_set(w, oid, ('e', el))
                            self.note_elem(oid, el, w)
                        out.append((w, None))
                else:
                    self.quiet_set(z, oid, ('e', v))
                    self.note_elem(oid, v, z)
                    out.append((z, None))
            return out
        return [(x, ('o', oid)) for x, o in self.iterate(st, node, it, body) if o is None]

    def minmax(self, st, name, args, kw):
        if len(args) == 1:
            ob = st.objs.get(args[0][1]) if args[0][0] == 'o' else None
            segs = self.keysegs(st, args[0])
            if segs and all(s[0] == 'e' for s in segs):
                args = [s[1] for s in segs]
            else:
                self.emit(st, ('sort', self.site(st), args[0], kw.get('key', NONE), self.seg_kind(st, segs)))
                t = ('pf', name, self.freeze(st, args[0])) + tuple(kw.get(k, ()) for k in sorted(kw))
                return [(st, t)]
        if kw:
            return [(st, ('pf', name) + tuple(args) + tuple(kw[k] for k in sorted(kw)))]
        self.emit(st, ('order', self.site(st), args[0], args[-1], self.kind(args[0], st), self.kind(args[-1], st)))
        args = sorted(set(args), key=key)
        if len(args) == 1:
            return [(st, args[0])]
        if all(is_num_c(a) for a in args):
            f = min if name == 'min' else max
            return [(st, C(f(a[2] for a in args)))]
        return [(st, ('pf', name) + tuple(args))]

    def b_min(self, st, args, kw, node):
        return self.minmax(st, 'min', args, kw)

    def b_max(self, st, args, kw, node):
        return self.minmax(st, 'max', args, kw)

    def b_abs(self, st, args, kw, node):
        if is_num_c(args[0]):
            return [(st, C(abs(args[0][2])))]
        d, s = lin_canon(args[0])
        return [(st, ('pf', 'abs', d))]

    def b_str(self, st, args, kw, node):
        if not args:
            return [(st, C(''))]
        return [(st, self.to_str(st, args[0]))]

    def b_int(self, st, args, kw, node):
        if not args:
            return [(st, ZERO)]
        self.emit(st, ('bcall', self.site(st), 'int', tuple(args), tuple(self.kind(a, st) for a in args)))
        if is_num_c(args[0]):
            return [(st, C(int(args[0][2])))]
        return [(st, ('pf', 'int', args[0]))]

    def b_bool(self, st, args, kw, node):
        return [(x, C(b)) for x, b in self.truth(st, args[0])]

    def b_isinstance(self, st, args, kw, node):
        v, c = args
        cs = [c] if c[0] != 't' else list(c[1:])
        self.emit(st, ('inst', self.site(st), v, c))
        # decided?
        k = self.kind(v, st)
        known = None
        cl = self.class_of(v, st)
        if v[0] == 'c':
            ty = {'int': ('int',), 'float': ('float',), 'str': ('str',), 'bool': ('bool', 'int'),
                  'NoneType': ()}.get(v[1], ())
            return [(st, C(any(x[0] == 'bi' and x[1] in ty for x in cs)))]
        if cl is not None:
            return [(st, C(any(x[0] == 'cls' and cl.is_subclass(x[1]) for x in cs)))]
        if v[0] == 't' or k in ('tuple', 'edge'):
            return [(st, C(any(x == ('bi', 'tuple') for x in cs)))]
        if isinstance(k, str) and k.startswith('ext:'):
            n = k[4:]
            return [(st, C(any(x[0] == 'ext' and self.ext_sub(n, x[1].split('.')[-1]) for x in cs)))]
        if k in ('list', 'dict', 'set') or k in DICTS or k in LIST_ELEM:
            kk = 'dict' if k in DICTS else 'list' if k in LIST_ELEM else k
            return [(st, C(any(x == ('bi', kk) for x in cs)))]
        if k in ('num', 'name') and all(x[0] == 'cls' for x in cs):
            return [(st, FALSE)]
        if k == 'str' and v[0] in ('cat', 'pf', 'srep'):
            return [(st, C(any(x == ('bi', 'str') for x in cs)))]
        out = []
        cur = [st]
        for x in cs:
            nxt = []
            for s in cur:
                for y, b in self.decide(s, ('inst', v, x), True):
                    if b:
                        if x[0] == 'cls':
                            pass
                        out.append((y, TRUE))
                    else:
                        nxt.append(y)
            cur = nxt
        return out + [(x, FALSE) for x in cur]

    EXT_BASES = {}

    def ext_sub(self, a, b):
        return a == b

    def b_getattr(self, st, args, kw, node):
        if args[1][0] == 'c':
            c = self.class_of(args[0], st)
            if len(args) > 2 and c is not None and not self.known_field(c, args[1][2]) and \
                    c.lookup(args[1][2]) is None:
                return [(st, args[2])]
            return self.attr(st, args[0], args[1][2])
        return [(st, ('u', 'getattr', args[0], args[1]))]

    def b_setattr(self, st, args, kw, node):
        if args[1][0] == 'c':
            self.store_field(st, args[0], args[1][2], args[2])
        else:
            self.emit(st, ('setf', self.site(st), args[0], '*', args[2]))
        return [(st, NONE)]

    def b_hasattr(self, st, args, kw, node):
        if args[1][0] == 'c':
            c = self.class_of(args[0], st)
            if c is not None:
                if c.lookup(args[1][2]) is not None:
                    return [(st, TRUE)]
                if args[1][2] == 'in_neighbors':
                    return [(st, C(self.graph_mode == 'digraph'))]
        return [(st, ('b', ('hasattr', args[0], args[1]), True))]

    def b_sum(self, st, args, kw, node):
        segs = self.keysegs(st, args[0])
        if all(s[0] == 'e' for s in segs):
            t = args[1] if len(args) > 1 else ZERO
            for s in segs:
                t = lin_add(t, s[1])
            return [(st, t)]
        return [(st, ('pf', 'sum', self.freeze(st, args[0])))]

    def quant(self, st, args, want):
        """any (want=True) / all (want=False) over known or mapped elements"""
        a = args[0]
        ob = st.objs.get(a[1]) if a[0] == 'o' else None
        if ob is not None and ob.kind in ('list', 'set') and all(s[0] == 'e' for s in ob.items):
            cur, out = [st], []
            for s in ob.items:
                nxt = []
                for x in cur:
                    for y, b in self.truth(x, s[1]):
                        (out.append((y, C(want))) if b == want else nxt.append(y))
                cur = nxt
            return out + [(x, C(not want)) for x in cur]
        return [(st, ('b', ('any' if want else 'all', self.freeze(st, a)), True))]

    def b_any(self, st, args, kw, node):
        return self.quant(st, args, True)

    def b_all(self, st, args, kw, node):
        return self.quant(st, args, False)

    def b_type(self, st, args, kw, node):
        c = self.class_of(args[0], st)
        if c is not None and args[0][0] == 'o':
            return [(st, ('cls', c.name))]
        return [(st, ('pf', 'type', args[0]))]

    def b_repr(self, st, args, kw, node):
        return [(st, ('pf', 'repr', self.freeze(st, args[0])))]

    def b_callable(self, st, args, kw, node):
        return [(st, ('b', ('callable', args[0]), True))]

    def b_object(self, st, args, kw, node):
        return [(st, self.new_obj(st, node, 'inst:object'))]

    def b_bytearray(self, st, args, kw, node):
        return [(st, ('pf', 'bytes', args[0]) if args else C(''))]

    b_bytes = b_bytearray
