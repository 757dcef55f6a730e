"""Path-sensitive abstract interpreter over the syntax tree (statements, loops, calls)."""
import ast
import builtins
import sys
import time
from .model import Program, FuncModel, ClassModel, AnalysisBroken
from .terms import *
from .state import *
from .heap import Heap, CONTAINERS
from .liveness import Liveness
from .expr import Exprs

sys.setrecursionlimit(20000)


def root_of(t):
    while t[0] in ('f', 'i'):
        t = t[1]
    return t[0]


class Budget(Exception):
    """the configured effort bound was reached: no verdict for this entry"""


class Config:
    def __init__(self, **kw):
        self.untracked = frozenset()     # location signatures that are not followed
        self.watch = frozenset()         # location signatures whose reads are logged
        self.opaque = {}                 # method name -> handler(interp, st, recv, name, args, kwargs) or None
        self.keep = None                 # predicate(event): is it kept in the path log?
        self.keyerr = True               # fork on membership where a KeyError would be caught
        self.implicit = False            # fork on membership for every del (a KeyError may end the call)
        self.ext_raises = False          # external calls may raise
        self.ext_exc = None              # which exceptions: (name, base, interp, state) -> names
        self.invariant = frozenset()     # locations every call and pass preserves unless the value is seen to differ
        self.tracked = None              # if given, only these location signatures are followed
        self.hook = None                 # hook(interp, st, ev): sees every event together with its state
        self.sink = True                 # keep the list of all events?
        self.deadline = None             # time.time() limit
        self.max_steps = 400000
        self.max_states = 160
        self.max_depth = 40
        self.model_ctor = True
        self.gtype = 'digraph'
        self.merge = True
        self.all_loops = False           # keep loops whose passes have no kept event
        for k, v in kw.items():
            if not hasattr(self, k):
                raise TypeError(k)
            setattr(self, k, v)


class Interp(Heap, Exprs):
    def __init__(self, prog, cfg):
        self.prog = prog
        self.cfg = cfg
        self.steps = 0
        self._kind_cache = {}
        self.skind = {}
        self.phi_kind = {}
        self.okind = {}
        self.oelem = {}
        self.okey = {}
        self.rkind = {}
        self.gkind = {}
        self.glit = {}
        self._intern = {}
        self.loopmem = {}
        self.recmem = {}
        self.rec_dirty = False
        self.sink = []           # events of every explored path (trial iterations excluded)
        self.trial = 0
        self.excs = [[]]
        self.catch = []
        self._live = {}
        self.active = []
        self.deco_cache = {}
        self.uid = 0
        self.graph_mode = cfg.gtype
        self.visited_funcs = set()
        self.nloops = 0
        self.npaths = 0
        self.site_cache = {}
        self.curnode = None
        self.loops_seen = {}
        self.live_iter = {}
        self.unsupported = {}
        self.loop_heads = []     # objects that existed at the head of each running loop
        self.loop_lids = []
        self.set_loops = []      # running loops over sets
        self.setlists = {}       # lists made out of sets: their order is the set's

    # ---- bookkeeping -----------------------------------------------------------------
    def intern(self, k):
        n = self._intern.get(k)
        if n is None:
            n = len(self._intern) + 1
            self._intern[k] = n
        return n

    def token(self, st):
        f = st.frames[-1]
        n = self.curnode
        return (self.intern((f.callpath, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))),)

    def site(self, st):
        f = st.frames[-1]
        n = self.curnode
        return (f.mod.path.rsplit('/', 1)[-1], getattr(n, 'lineno', 0), f.func.qual if f.func else '<module>')

    def site_user(self, st):
        """the site, taken at the caller of attribute accessors"""
        f, line = st.frames[-1], getattr(self.curnode, 'lineno', 0)
        k = len(st.frames) - 1
        while k > 0 and f.func and f.callpath and f.func.qual.rsplit('.', 1)[-1] in ('get_attr', 'get_node_attr', 'get_edge_attr'):
            line = f.callpath[-1][0]
            k -= 1
            f = st.frames[k]
        return (f.mod.path.rsplit('/', 1)[-1], line, f.func.qual if f.func else '<module>')

    def emit(self, st, ev):
        if not self.trial:
            if self.cfg.hook is not None:
                self.cfg.hook(self, st, ev)
            if self.cfg.sink:
                self.sink.append(ev)
        if self.cfg.keep is None or self.cfg.keep(ev):
            st.emit(ev)

    def step(self):
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise Budget('more than %d steps' % self.cfg.max_steps)
        if self.cfg.deadline is not None and not self.steps & 1023 and time.time() > self.cfg.deadline:
            raise Budget('time limit')

    def raise_exc(self, st, cls, val=None):
        self.excs[-1].append((st, ('raise', cls, val)))

    def catching_key(self):
        return any('KeyError' in c or '*' in c for c in self.catch) or self.cfg.implicit

    def unsup(self, what):
        self.unsupported[what] = self.unsupported.get(what, 0) + 1

    # ---- entry -----------------------------------------------------------------------
    def run_entry(self, func, args, kwargs=None, setup=None, cls=None, kwspread=()):
        """runs a function from a fresh state; returns list of (state, outcome)"""
        for attempt in range(4):
            self.rec_dirty = False
            self.sink = []
            self.steps = 0
            st = St()
            base = Frame(0, None, {}, func.module, None, ())
            st.frames = (base,)
            if setup:
                setup(st)
            self.excs = [[]]
            self.curnode = func.node
            res = self.call_func(st, func, list(args), dict(kwargs or {}), node=func.node, kwspread=kwspread)
            outs = [(s, ('return', v)) for s, v in res] + list(self.excs[0])
            self.excs = [[]]
            if not self.rec_dirty:
                break
        self.npaths += len(outs)
        return outs

    # ---- calling program functions -----------------------------------------------------
    def call_func(self, st, fm, args, kwargs, node=None, recv_cls=None, closure=None, spread=(), kwspread=()):
        """args: positional terms (receiver included); returns [(st, value)]"""
        self.step()
        if fm.decos and not closure:
            d = self.decorated(st, fm)
            if d is not None:
                return self.call_term(st, d, args, kwargs, node, spread, kwspread)
        if fm.is_gen:
            oid = self.alloc_id(st, node, 'gen')
            st.setobj(oid, Obj('gen', (), (fm, tuple(args), tuple(sorted(kwargs.items())), closure)))
            self.okind[oid] = 'gen'
            return [(st, ('o', oid))]
        depth = sum(1 for f in st.frames if f.func is fm)
        if depth >= 1 and (fm.node, ) and self.is_recursive(st, fm):
            return self.rec_call(st, fm, args, kwargs)
        if len(st.frames) > self.cfg.max_depth:
            raise Budget('call depth')
        env = self.bind(st, fm, args, kwargs, node, spread, kwspread)
        if env is None:
            return []
        self.visited_funcs.add(fm.qual)
        self.uid += 1
        caller = st.frames[-1]
        pos = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        fr = Frame(self.uid, fm, env, fm.module, fm.cls, caller.callpath + (pos,))
        if closure is not None:
            fr.env = dict(env)
            fr.env['\0closure'] = closure
        st.frames = st.frames + (fr,)
        savednode = self.curnode
        before_ver, before_objs = st.ver, st.objs
        outs = self.exec_block(fm.node.body, st)
        self.curnode = savednode
        res = []
        for s, o in outs:
            s.frames = s.frames[:-1]
            if o is None:
                res.append((s, NONE))
            elif o[0] == 'return':
                res.append((s, o[1]))
            elif o[0] == 'raise':
                self.excs[-1].append((s, o))
            else:
                self.genout.append((s, o)) if o[0] in ('genbreak', 'genret') else None
            if fm in self.recwatch:
                self.note_rec(fm, before_ver, before_objs, s)
        return self.merge_vals(res)

    genout = []
    recwatch = frozenset()

    def is_recursive(self, st, fm):
        # a recursive activation: the function is already on the stack with the same code
        return True

    def note_rec(self, fm, ver, objs, s):
        mem = self.recmem.setdefault(fm, (set(), set()))
        for k, v in s.ver.items():
            if ver.get(k) != v and k not in mem[0]:
                if k in self.cfg.invariant:
                    continue
                mem[0].add(k)
                self.rec_dirty = True

    def rec_call(self, st, fm, args, kwargs):
        self.recwatch = set(self.recwatch) | {fm}
        if fm not in self.recmem:
            self.recmem[fm] = (set(), set())
            self.rec_dirty = True
        sigs = self.recmem[fm][0]
        tok = self.token(st)
        ev = ('call', self.site(st), args[0] if args and fm.cls else None, fm.name,
              tuple(args[1:] if fm.cls else args), tuple(sorted(kwargs.items())), ('rec',) + tok)
        self.emit(st, ev)
        for s in sigs:
            st.setver(s, ('R',) + tok)
        self.drop_sigs(st, sigs)
        for a in list(args) + list(kwargs.values()):
            self.havoc_obj(st, a, ('R',) + tok)
        r = ('r', 'rec', fm.name) + tok
        return [(st, r)]

    def drop_sigs(self, st, sigs):
        if not sigs:
            return
        kill = set()
        for l in st.store:
            if l[0] == 'f':
                if ('fld', l[2]) in sigs:
                    kill.add(l)
            else:
                s = self.sig(l[1], l[2], st)
                if s in sigs or ('it', s[1], None) in sigs or \
                        (s[2] == '*' and any(x[0] == 'it' and x[1] == s[1] for x in sigs)):
                    kill.add(l)
        if kill:
            st.drop(kill)

    def havoc_obj(self, st, t, tok):
        if t[0] == 'o':
            ob = st.objs.get(t[1])
            if ob is not None and ob.kind in ('list', 'dict', 'set'):
                st.setobj(t[1], ob.with_items((('unk', tok),)))
                st.setver(('it', t, '*'), tok)
                st.drop({l for l in st.store if l[0] == 'i' and l[1] == t})
        elif t[0] == 't':
            for x in t[1:]:
                self.havoc_obj(st, x, tok)

    # ---- argument binding ----------------------------------------------------------------
    def bind(self, st, fm, args, kwargs, node, spread, kwspread):
        a = fm.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kwargs)
        n = len(args)
        if n > len(pos) and a.vararg is None:
            self.emit(st, ('badcall', self.site(st), fm.qual, 'takes %d positional arguments but %d are given'
                           % (len(pos), n)))
            self.raise_exc(st, 'TypeError')
            return None
        for nm, v in zip(pos, args):
            env[nm] = v
        if a.vararg is not None:
            env[a.vararg.arg] = ('t',) + tuple(args[len(pos):])
            if spread:
                env[a.vararg.arg] = spread[0] if not args[len(pos):] else ('u', 'varargs')
        elif spread:
            for nm in pos[n:]:
                if nm not in kw:
                    env[nm] = ('i', spread[0], C(pos.index(nm) - n))
        konly = [x.arg for x in a.kwonlyargs]
        rest = []
        for k, v in kw.items():
            if k in env and k in pos:
                self.emit(st, ('badcall', self.site(st), fm.qual, "gets multiple values for argument '%s'" % k))
                self.raise_exc(st, 'TypeError')
                return None
            if k in pos or k in konly:
                env[k] = v
            elif a.kwarg is not None:
                rest.append((k, v))
            else:
                self.emit(st, ('badcall', self.site(st), fm.qual, "has no parameter '%s'" % k))
                self.raise_exc(st, 'TypeError')
                return None
        stars = []
        for sp in kwspread:
            ob = st.objs.get(sp[1]) if sp[0] == 'o' else None
            if ob is not None and ob.kind == 'dict':
                for s in ob.items:
                    if s[0] == 'kv' and s[1][0] == 'c':
                        k = s[1][2]
                        if (k in pos or k in konly) and k not in env:
                            env[k] = s[2]
                        else:
                            rest.append((k, s[2]))
                    else:
                        stars.append(s)
            else:
                stars.append(('star', ('keys', sp)))
        if a.kwarg is not None:
            oid = self.alloc_id(st, node, 'kw' + fm.qual)
            items = [('kv', C(k), v) for k, v in rest] + stars
            st.setobj(oid, Obj('dict', tuple(items)))
            self.okind[oid] = 'dict'
            env[a.kwarg.arg] = ('o', oid)
        # defaults
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for nm, d in list(zip(pos, defaults)) + list(zip(konly, a.kw_defaults)):
            if nm in env:
                continue
            if d is None:
                if spread or stars:
                    env[nm] = ('u', 'spread', nm)
                    continue
                self.emit(st, ('badcall', self.site(st), fm.qual, "misses a value for parameter '%s'" % nm))
                self.raise_exc(st, 'TypeError')
                return None
            env[nm] = self.default_value(st, fm, nm, d)
        return env

    def default_value(self, st, fm, nm, d):
        if isinstance(d, ast.Constant):
            return C(d.value)
        if isinstance(d, (ast.UnaryOp, ast.Tuple, ast.BinOp)):
            try:
                v = ast.literal_eval(d)
                return self.from_py(v)
            except Exception:
                pass
        if isinstance(d, ast.Name):
            v = self.module_name(st, fm.module, d.id)
            if v is not None:
                return v
        # evaluated once, when the function was defined: shared by every call
        t = ('g', 'default', fm.qual, nm)
        if isinstance(d, (ast.Dict, ast.DictComp)):
            self.gkind[t] = 'dict'
        elif isinstance(d, (ast.List, ast.ListComp)):
            self.gkind[t] = 'list'
        elif isinstance(d, (ast.Set, ast.SetComp)):
            self.gkind[t] = 'set'
        elif isinstance(d, ast.Call) and isinstance(d.func, ast.Name):
            r = self.module_name(st, fm.module, d.func.id)
            if r is not None and r[0] == 'ext':
                self.gkind[t] = 'ext:' + r[1].split('.')[-1]
            elif d.func.id in ('dict', 'list', 'set'):
                self.gkind[t] = d.func.id
        return t

    def from_py(self, v):
        if isinstance(v, tuple):
            return ('t',) + tuple(self.from_py(x) for x in v)
        return C(v)

    # ---- decorators ----------------------------------------------------------------------
    def decorated(self, st, fm):
        if fm in self.deco_cache:
            return self.deco_cache[fm]
        names = [ast.unparse(d) for d in fm.decos]
        if any(n in ('staticmethod', 'classmethod', 'property') or n.endswith('contextmanager')
               or n.endswith('wraps') or n.startswith('functools.wraps') for n in names):
            self.deco_cache[fm] = None
            return None
        self.deco_cache[fm] = None
        t = ('fn', fm, 'raw')
        st0 = St()
        st0.frames = (Frame(0, None, {}, fm.module, None, ()),)
        for d in reversed(fm.decos):
            rs = self.eval(d, st0)
            if len(rs) != 1:
                return None
            st0, dt = rs[0]
            rs = self.call_term(st0, dt, [t], {}, d)
            if len(rs) != 1:
                return None
            st0, t = rs[0]
        if t[0] == 'o':
            ob = st0.objs[t[1]]
            t = ('clo', ob)
        self.deco_cache[fm] = t
        return t

    # ---- merging -------------------------------------------------------------------------
    def merge_vals(self, res):
        if len(res) < 2 or not self.cfg.merge:
            return res
        out = []
        for s, v in res:
            for s2, v2 in out:
                if v == v2 and s2.same_but_facts(s):
                    meet_facts(s2, s)
                    break
            else:
                out.append((s, v))
        self.cap(out)
        return out

    def merge_outs(self, outs):
        if len(outs) < 2 or not self.cfg.merge:
            return outs
        out = []
        for s, v in outs:
            for s2, v2 in out:
                if v == v2 and s2.same_but_facts(s):
                    meet_facts(s2, s)
                    break
            else:
                out.append((s, v))
        self.cap(out)
        return out

    def cap(self, l):
        if len(l) > self.cfg.max_states:
            raise Budget('more than %d states' % self.cfg.max_states)

    # ---- statements ------------------------------------------------------------------------
    def exec_block(self, stmts, st):
        """[(state, outcome)]"""
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for y, o in self.exec_stmt(s, x):
                    if o is None:
                        nxt.append((y, None))
                    else:
                        done.append((y, o))
            if not nxt:
                return self.merge_outs(done)
            if len(nxt) > 1:
                lv = self.live_after(nxt[0][0], s)
                if lv is not None:
                    for y, _ in nxt:
                        self.prune(y, lv)
                nxt = self.merge_outs(nxt)
            cur = [y for y, _ in nxt]
        return self.merge_outs(done + [(x, None) for x in cur])

    def live_after(self, st, stmt):
        f = st.frames[-1].func
        if f is None or not isinstance(f.node, (ast.FunctionDef,)):
            return None
        l = self._live.get(f)
        if l is None:
            l = self._live[f] = Liveness(f.node)
        return l.live_after(stmt)

    def prune(self, st, live):
        f = st.frames[-1]
        dead = [k for k in f.env if k not in live and not k.startswith('\0')]
        if dead:
            e = {k: v for k, v in f.env.items() if k in live or k.startswith('\0')}
            st.frames = st.frames[:-1] + (f.with_env(e),)

    def exec_stmt(self, s, st):
        self.step()
        self.curnode = s
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.unsup('statement ' + type(s).__name__)
            return [(st, None)]
        self.excs.append([])
        savedgen, self.genout = self.genout, []
        try:
            outs = m(s, st)
            gen = self.genout
        finally:
            exc = self.excs.pop()
            self.genout = savedgen
        if exc or gen:
            outs = list(outs) + exc + gen
        return outs

    def ev(self, e, st):
        return self.eval(e, st)

    def x_Pass(self, s, st):
        return [(st, None)]

    x_Import = x_Pass
    x_Global = x_Pass
    x_Nonlocal = x_Pass

    def x_ImportFrom(self, s, st):
        for a in s.names:
            st.setvar(a.asname or a.name, ('ext', (s.module or '') + '.' + a.name))
        return [(st, None)]

    def x_Import(self, s, st):
        for a in s.names:
            st.setvar(a.asname or a.name.split('.')[0], ('ext', a.name if a.asname else a.name.split('.')[0]))
        return [(st, None)]

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(x, None) for x, v in self.eval(s.value, st)]

    def x_Assert(self, s, st):
        out = []
        for x, v in self.eval(s.test, st):
            for y, b in self.truth(x, v):
                if b:
                    out.append((y, None))
                else:
                    self.raise_exc(y, 'AssertionError')
        return out

    def x_Assign(self, s, st):
        res = []
        for x, v in self.eval(s.value, st):
            cur = [x]
            for t in s.targets:
                nxt = []
                for y in cur:
                    nxt.extend(self.assign(t, v, y))
                cur = nxt
            res.extend((y, None) for y in cur)
        return res

    def x_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, None)]
        return [(y, None) for x, v in self.eval(s.value, st) for y in self.assign(s.target, v, x)]

    def x_AugAssign(self, s, st):
        import copy as _c
        res = []
        if isinstance(s.target, ast.Name):
            load = ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target)
            for x, a in self.eval(load, st):
                for y, b in self.eval(s.value, x):
                    for z, v in self.aug(y, s.op, a, b):
                        res.extend((w, None) for w in self.assign(s.target, v, z))
            return res
        if isinstance(s.target, ast.Attribute):
            for x, base in self.eval(s.target.value, st):
                for x2, a in self.attr(x, base, s.target.attr):
                    for y, b in self.eval(s.value, x2):
                        for z, v in self.aug(y, s.op, a, b):
                            self.curnode = s
                            self.store_field(z, base, s.target.attr, v)
                            res.append((z, None))
            return res
        for x, base in self.eval(s.target.value, st):
            for x1, k in self.eval_index(s.target.slice, x):
                for x2, a in self.load_item(x1, base, k):
                    for y, b in self.eval(s.value, x2):
                        for z, v in self.aug(y, s.op, a, b):
                            self.curnode = s
                            self.store_item(z, base, k, v)
                            res.append((z, None))
        return res

    def aug(self, st, op, a, b):
        """augmented assignment: in-place for lists"""
        ka = self.kind(a, st)
        if isinstance(op, ast.Add) and (ka in ('list', 'nbrs') or (a[0] == 'o' and st.objs.get(a[1]) is not None
                                                         and st.objs[a[1]].kind == 'list')):
            return [(x, a) for x, _ in self.list_method(st, a, 'extend', [b], {})]
        return self.binop(st, op, a, b)

    def assign(self, t, v, st):
        """[state]"""
        self.curnode = t if hasattr(t, 'lineno') else self.curnode
        if isinstance(t, ast.Name):
            f = st.frames[-1].func
            if f is not None and self.is_global(f, t.id):
                self.emit(st, ('gset', self.site(st), t.id, v))
                return [st]
            up = self.is_nonlocal(f, t.id)
            if up:
                clo = st.frames[-1].env.get('\0closure')
                if clo is not None and st.setvar_in(clo, t.id, v):
                    return [st]
            st.setvar(t.id, v)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st)
        if isinstance(t, ast.Attribute):
            out = []
            for x, base in self.eval(t.value, st):
                self.curnode = t
                self.store_field(x, base, t.attr, v)
                out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, base in self.eval(t.value, st):
                for y, k in self.eval_index(t.slice, x):
                    self.curnode = t
                    if k[0] == 'slice':
                        self.mut_unknown(y, base, 'setslice', (k, v))
                    else:
                        self.store_item(y, base, k, v)
                    out.append(y)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        self.unsup('target ' + type(t).__name__)
        return [st]

    def is_global(self, f, name):
        return any(isinstance(n, ast.Global) and name in n.names for n in self.scope_decls(f))

    def is_nonlocal(self, f, name):
        return f is not None and any(isinstance(n, ast.Nonlocal) and name in n.names for n in self.scope_decls(f))

    _decls = {}

    def scope_decls(self, f):
        d = self._decls.get(f.node)
        if d is None:
            d = [n for n in ast.walk(f.node) if isinstance(n, (ast.Global, ast.Nonlocal))]
            self._decls[f.node] = d
        return d

    def unpack(self, elts, v, st):
        n = len(elts)
        if v[0] == 't' and len(v) - 1 != n and not any(isinstance(e, ast.Starred) for e in elts):
            self.emit(st, ('unpack', self.site(st), n, v))
            self.raise_exc(st, 'ValueError')
            return []
        if v == NONE:
            self.emit(st, ('nonederef', self.site(st), 'unpack'))
            self.raise_exc(st, 'TypeError')
            return []
        cur = [st]
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        for i, e in enumerate(elts):
            nxt = []
            for x in cur:
                if star and i >= star[0]:
                    if v[0] == 't' and i == star[0]:
                        oid = self.alloc_id(x, e, 'star')
                        x.setobj(oid, Obj('list', tuple(('e', y) for y in v[1 + i:len(v) - (n - 1 - i)])))
                        nxt.extend(self.assign(e.value, ('o', oid), x))
                        continue
                    if v[0] == 't':
                        nxt.extend(self.assign(e, v[len(v) - (n - i)], x))
                        continue
                    nxt.extend(self.assign(e, ('u', 'rest', v, i), x))
                    continue
                for y, w in self.load_item(x, v, C(i)):
                    nxt.extend(self.assign(e, w, y))
            cur = nxt
        return cur

    def x_Delete(self, s, st):
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Name):
                    x.delvar(t.id)
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for y, base in self.eval(t.value, x):
                        for z, k in self.eval_index(t.slice, y):
                            self.curnode = s
                            if k[0] == 'slice' or (base[0] == 'o' and z.objs.get(base[1]) is not None
                                                   and z.objs[base[1]].kind == 'list'):
                                self.mut_unknown(z, base, 'delitem', (k,))
                                nxt.append(z)
                            else:
                                nxt.extend(self.del_item(z, base, k))
                elif isinstance(t, ast.Attribute):
                    for y, base in self.eval(t.value, x):
                        self.emit(y, ('setf', self.site(y), base, t.attr, ('deleted',)))
                        nxt.append(y)
                else:
                    nxt.append(x)
            cur = nxt
        return [(x, None) for x in cur]

    def x_If(self, s, st):
        out = []
        for x, b in self.cond(s.test, st):
            body = s.body if b else s.orelse
            if body:
                out.extend(self.exec_block(body, x))
            else:
                out.append((x, None))
        return self.join(s, out)

    def join(self, s, outs):
        norm = [(x, o) for x, o in outs if o is None]
        if len(norm) > 1:
            lv = self.live_after(norm[0][0], s)
            if lv is not None:
                for y, _ in norm:
                    self.prune(y, lv)
        return self.merge_outs(outs)

    def x_Match(self, s, st):
        out = []
        for x, subj in self.eval(s.subject, st):
            cur = [x]
            for c in s.cases:
                nxt = []
                for y in cur:
                    for z, b in self.match_pat(y, subj, c.pattern):
                        if b and c.guard is not None:
                            for w, g in self.cond(c.guard, z):
                                if g:
                                    out.extend(self.exec_block(c.body, w))
                                else:
                                    nxt.append(w)
                        elif b:
                            out.extend(self.exec_block(c.body, z))
                        else:
                            nxt.append(z)
                cur = nxt
            out.extend((y, None) for y in cur)
        return self.join(s, out)

    def match_pat(self, st, subj, p):
        if isinstance(p, ast.MatchValue):
            out = []
            for x, v in self.eval(p.value, st):
                out.extend(self.decide(x, self.eq_atom(subj, v), True))
            return out
        if isinstance(p, ast.MatchSingleton):
            if p.value is None:
                return self.is_none(st, subj)
            return self.decide(st, self.eq_atom(subj, C(p.value)), True)
        if isinstance(p, ast.MatchOr):
            out = []
            cur = [st]
            for q in p.patterns:
                nxt = []
                for x in cur:
                    for y, b in self.match_pat(x, subj, q):
                        (out.append((y, True)) if b else nxt.append(y))
                cur = nxt
            return out + [(x, False) for x in cur]
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                st.setvar(p.name, subj)
            return [(st, True)]
        self.unsup('pattern ' + type(p).__name__)
        return [(st, True), (st.fork(), False)]

    def x_Return(self, s, st):
        if s.value is None:
            return [(st, ('return', NONE))]
        return [(x, ('return', v)) for x, v in self.eval(s.value, st)]

    def x_Break(self, s, st):
        return [(st, ('break',))]

    def x_Continue(self, s, st):
        return [(st, ('continue',))]

    def x_Raise(self, s, st):
        if s.exc is None:
            cur = st.frames[-1].env.get('\0exc')
            return [(st, cur if cur is not None else ('raise', 'Exception', None))]
        out = []
        for x, v in self.eval(s.exc, st):
            name = self.exc_name(v)
            self.curnode = s
            self.emit(x, ('raise', self.site(x), name, v))
            out.append((x, ('raise', name, v)))
        return out

    def exc_name(self, v):
        if v[0] == 'cls':
            return v[1]
        if v[0] in ('bi', 'ext'):
            return v[1].split('.')[-1]
        if v[0] == 'o':
            k = self.okind.get(v[1], '')
            if ':' in k:
                return k.split(':', 1)[1].split('.')[-1]
        if v[0] == 'r' and v[1] in ('ext', 'bi'):
            return str(v[2]).split('.')[-1]
        if v[0] == 'exc':
            return v[1]
        return 'Exception'

    def exc_matches(self, exc, handler_names):
        for h in handler_names:
            if h in ('*', 'BaseException'):
                return True
            if h == exc:
                return True
            if self.exc_sub(exc, h):
                return True
        return False

    def exc_sub(self, a, b):
        ca = self.prog.classes.get(a)
        if ca is not None:
            names = {c.name for c in ca.mro()} | ca.ext_bases()
            if b in names:
                return True
            return any(self.exc_sub(x, b) for x in ca.ext_bases())
        pa, pb = getattr(builtins, a, None), getattr(builtins, b, None)
        extra = {'CalledProcessError': Exception, 'SubprocessError': Exception, 'TimeoutExpired': Exception,
                 'UnidentifiedImageError': OSError, 'ExtError': Exception}
        pa = pa or extra.get(a)
        pb = pb or extra.get(b)
        if isinstance(pa, type) and isinstance(pb, type):
            if b == 'SubprocessError' and a in ('CalledProcessError', 'TimeoutExpired'):
                return True
            if b in extra and a != b:
                return False
            return issubclass(pa, pb)
        return False

    def handler_names(self, h, st):
        if h.type is None:
            return ['*']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [ast.unparse(t).split('.')[-1] for t in ts]

    def catches(self, *names):
        names = set(names)
        cat = set()
        if names & {'*', 'BaseException', 'Exception', 'LookupError', 'KeyError'}:
            cat.add('KeyError')
        if names & {'*', 'BaseException', 'Exception', 'ValueError'}:
            cat.add('ValueError')
        if names & {'*', 'BaseException', 'Exception', 'LookupError', 'IndexError'}:
            cat.add('IndexError')
        if names & {'*', 'BaseException', 'Exception', 'OSError', 'FileNotFoundError', 'IOError'}:
            cat.add('OSError')
        if names & {'*', 'BaseException', 'Exception'}:
            cat.add('*')
        return cat

    def x_Try(self, s, st):
        names = set()
        for h in s.handlers:
            for n in self.handler_names(h, st):
                names.add(n)
        cat = self.catches(*names)
        depth = len(st.frames)
        self.catch.append(cat)
        try:
            outs = self.exec_block(s.body, st)
        finally:
            self.catch.pop()
        res = []
        for x, o in outs:
            if o is None:
                if s.orelse:
                    res.extend(self.exec_block(s.orelse, x))
                else:
                    res.append((x, None))
                continue
            if o[0] != 'raise':
                res.append((x, o))
                continue
            exc = o[1]
            for h in s.handlers:
                hn = self.handler_names(h, x)
                if self.exc_matches(exc, hn) or (exc == 'ExtError' and
                                                 not set(hn) & {'SystemExit', 'KeyboardInterrupt'}):
                    y = x if self.exc_matches(exc, hn) else x.fork()
                    y.frames = y.frames[:depth]
                    y.setvar('\0exc', o)
                    if h.name:
                        y.setvar(h.name, ('exc', exc))
                    self.emit(y, ('caught', self.site(y), exc))
                    for z, p in self.exec_block(h.body, y):
                        z.delvar('\0exc')
                        res.append((z, p))
                    if self.exc_matches(exc, hn):
                        break
            else:
                res.append((x, o))
        if s.finalbody:
            fin = []
            for x, o in res:
                if o is not None and o[0] == 'raise':
                    x.frames = x.frames[:depth]
                for y, p in self.exec_block(s.finalbody, x):
                    fin.append((y, o if p is None else p))
            res = fin
        return self.join(s, res)

    x_TryStar = x_Try

    def x_With(self, s, st):
        return self.with_items(s, s.items, st)

    def with_items(self, s, items, st):
        if not items:
            return self.exec_block(s.body, st)
        it = items[0]
        out = []
        for x, v in self.eval(it.context_expr, st):
            ob = x.objs.get(v[1]) if v[0] == 'o' else None
            if ob is not None and ob.kind == 'gen':
                def handler(y, val, it=it, rest=items[1:]):
                    r = []
                    for z in (self.assign(it.optional_vars, val, y) if it.optional_vars is not None else [y]):
                        r.extend(self.with_items(s, rest, z))
                    return r
                out.extend(self.run_gen(x, v, handler, ctx=True))
                continue
            cm = self.enter(x, v)
            cur = [x]
            if it.optional_vars is not None:
                cur = self.assign(it.optional_vars, cm, x)
            for y in cur:
                depth = len(y.frames)
                sup = set()
                if v[0] == 'r' and v[1:3] == ('ext', 'contextlib.suppress'):
                    for a in v[3:]:
                        if isinstance(a, tuple) and a and a[0] in ('bi', 'cls', 'ext'):
                            sup |= self.catches(self.exc_name(a))
                self.catch.append(sup)
                try:
                    inner = self.with_items(s, items[1:], y)
                finally:
                    self.catch.pop()
                for z, o in inner:
                    if o is not None and o[0] == 'raise':
                        z.frames = z.frames[:depth]
                    self.emit(z, ('exit', self.site(z), v))
                    if o is not None and o[0] == 'raise' and v[0] == 'r' and v[1:3] == ('ext', 'contextlib.suppress') \
                            and self.exc_matches(o[1], [self.exc_name(a) for a in v[3:] if isinstance(a, tuple)
                                                        and a and a[0] in ('bi', 'cls', 'ext')]):
                        self.emit(z, ('caught', self.site(z), o[1]))
                        o = None
                    out.append((z, o))
        return self.join(s, out)

    def enter(self, st, v):
        self.emit(st, ('enter', self.site(st), v))
        return v

    def x_FunctionDef(self, s, st):
        fm = self.local_func(s, st)
        oid = self.alloc_id(st, s, 'clo')
        st.setobj(oid, Obj('clo', (), (fm, st.frames[-1].uid, dict(st.frames[-1].env))))
        self.okind[oid] = 'clo'
        st.setvar(s.name, ('o', oid))
        return [(st, None)]

    _lf = {}

    def local_func(self, s, st):
        fm = self._lf.get(s)
        if fm is None:
            outer = st.frames[-1].func
            if isinstance(s, ast.Lambda):
                node = ast.FunctionDef(name='<lambda>', args=s.args,
                                       body=[ast.copy_location(ast.Return(s.body), s)], decorator_list=[],
                                       lineno=s.lineno, col_offset=s.col_offset)
                fm = FuncModel('<lambda>', node, st.frames[-1].mod)
            else:
                fm = FuncModel(s.name, s, st.frames[-1].mod)
                fm.decos = [d for d in s.decorator_list if 'wraps' not in ast.unparse(d)]
            fm.outer = outer
            self._lf[s] = fm
        return fm

    # ---- loops ---------------------------------------------------------------------------
    def lid(self, st, node):
        return self.intern((st.frames[-1].callpath, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), 'L'))

    def x_For(self, s, st):
        out = []
        for x, it in self.eval(s.iter, st):
            self.curnode = s

            def body(y, el):
                r = []
                for z in self.assign(s.target, el, y):
                    r.extend(self.exec_block(s.body, z))
                return r
            for y, o in self.iterate(x, s, it, body):
                if o is None and s.orelse:
                    out.extend(self.exec_block(s.orelse, y))
                elif o is not None and o[0] == 'break':
                    out.append((y, None))
                else:
                    out.append((y, o))
        return self.join(s, out)

    def x_While(self, s, st):
        lid = self.lid(st, s)

        def step(head):
            outs, exits = [], []
            for y, b in self.cond(s.test, head):
                if b:
                    outs.extend(self.exec_block(s.body, y))
                else:
                    exits.append(y)
            return outs, exits
        out = []
        for y, o in self.generic(st, s, lid, step, ('while',)):
            if o is None and s.orelse:
                out.extend(self.exec_block(s.orelse, y))
            elif o is not None and o[0] == 'break':
                out.append((y, None))
            else:
                out.append((y, o))
        return self.join(s, out)

    def iterate(self, st, node, it, body):
        """runs body(state, element) over an iterable term: [(state, outcome)], outcome break kept"""
        ob = st.objs.get(it[1]) if it[0] == 'o' else None
        if ob is not None and ob.kind == 'gen':
            def handler(y, val):
                return body(y, val)
            return self.run_gen(st, it, handler)
        plan = self.plan(st, it)
        if it[0] in ('i', 'f'):
            self.live_iter[id(node)] = it       # iterated in place, not over a copy
        cur = [(st, None)]
        n = 0
        skind = self.set_kind(st, it)
        for p in plan:
            nxt = []
            for x, o in cur:
                if o is not None:
                    nxt.append((x, o))
                    continue
                if p[0] == 'one':
                    f = x.frames[-1]
                    x.frames = x.frames[:-1] + (Frame(f.uid, f.func, f.env, f.mod, f.cls,
                                                      f.callpath + (('u', n),)),)
                    cp = f.callpath
                    for y, o2 in body(x, p[1]):
                        if len(y.frames) >= 1:
                            g = y.frames[-1]
                            if g.uid == f.uid:
                                y.frames = y.frames[:-1] + (Frame(g.uid, g.func, g.env, g.mod, g.cls, cp),)
                        if o2 is not None and o2[0] == 'continue':
                            o2 = None
                        nxt.append((y, o2))
                else:
                    lid = self.lid(x, node)
                    if n:
                        lid = self.intern((lid, n))
                    src = p[1]

                    def step(head, src=src, lid=lid):
                        outs, ex = [], head.fork()
                        for y, el in self.elements(head, src, lid):
                            outs.extend(body(y, el))
                        return outs, [ex]
                    st0 = x.fork() if skind is not None else None
                    if skind is not None:
                        self.set_loops.append((skind, self.site(x)))
                    nxt.extend(self.generic(x, node, lid, step, src))
                    if skind is not None:
                        self.set_loops.pop()
                    if skind is not None and not self.trial and self.cfg.hook is not None:
                        self.cfg.hook(self, st0, ('setiter', self.site(st0), it, skind,
                                                  tuple(a[4] for a in self.loops_seen[lid]['alts'])))
            cur = self.merge_outs(nxt)
            n += 1
        return cur

    def set_kind(self, st, it):
        """kind of the elements if the order of the iteration is that of a set, else None"""
        if it[0] == 'src' and it[1][0] in ('elems', 'enum', 'star') and isinstance(it[1][1], tuple) \
                and it[1][1] and it[1][1][0] == 'o':
            it = it[1][1]
        if it[0] != 'o':
            return None
        ob = st.objs.get(it[1])
        if ob is None or not ob.items:
            return None
        if ob.kind == 'set' or (ob.kind == 'list' and it[1] in self.setlists and
                                not (len(ob.items) == 1 and ob.items[0][0] == 'star'
                                     and ob.items[0][1][0] == 'sorted')):
            k = self.seg_kind(st, ob.items)
            if k == 'any':
                k = self.elem_kind_of_obj(it[1])
            return k
        return None

    def plan(self, st, it):
        """[('one', term) | ('gen', src)]"""
        if it[0] == 't':
            return [('one', x) for x in it[1:]]
        if it[0] == 'o':
            ob = st.objs.get(it[1])
            if ob is not None and ob.kind in ('list', 'set', 'dict'):
                out = []
                for s in ob.items:
                    if s[0] in ('e', 'kv'):
                        out.append(('one', s[1]))
                    elif s[0] == 'star':
                        out.append(('gen', s[1]))
                    elif s[0] == 'rep':
                        out.append(('gen', s))
                    else:
                        return [('gen', ('elems' if ob.kind != 'dict' else 'keys', it,
                                         self.intern(('ov', ob.items))))]
                if len(out) > 12:
                    return [('gen', ('elems' if ob.kind != 'dict' else 'keys', it, self.intern(('ov', ob.items))))]
                return out
        if it[0] == 'src':
            s = it[1]
            if s[0] == 'range' and all(is_num_c(x) for x in s[1:]):
                r = range(*[x[2] for x in s[1:]])
                if len(r) <= 6:
                    return [('one', C(i)) for i in r]
            if s[0] in ('items', 'values', 'enum', 'sorted', 'rev') :
                base = s[1]
                if s[0] in ('items', 'values') and base[0] == 'o':
                    ob = st.objs.get(base[1])
                    if ob is not None and ob.kind == 'dict' and all(x[0] == 'kv' for x in ob.items) \
                            and len(ob.items) <= 12:
                        if s[0] == 'items':
                            return [('one', ('t', x[1], x[2])) for x in ob.items]
                        return [('one', x[2]) for x in ob.items]
                if s[0] == 'enum':
                    sub = self.plan(st, s[1])
                    if all(p[0] == 'one' for p in sub) and is_num_c(s[2]):
                        return [('one', ('t', C(s[2][2] + i), p[1])) for i, p in enumerate(sub)]
                    if len(sub) == 1:
                        return [('gen', ('enum', sub[0][1], s[2]))]
            return [('gen', s)]
        return [('gen', self.src_of(st, it))]

    def src_of(self, st, it):
        """iteration source of a term"""
        if it[0] == 'src':
            return it[1]
        if it[0] == 'o':
            ob = st.objs.get(it[1])
            if ob is not None and ob.kind in ('list', 'set', 'dict'):
                if len(ob.items) == 1 and ob.items[0][0] in ('star',):
                    return ob.items[0][1]
                if len(ob.items) == 1 and ob.items[0][0] == 'rep':
                    return ob.items[0]
                return ('elems' if ob.kind != 'dict' else 'keys', it, self.intern(('ov', ob.items)))
        if self.is_dict(it, st):
            v = self.ver_of(st, self.sig(it, ('u', 'k'), st))
            return ('keys', it, v) if v else ('keys', it)
        if it[0] in ('f', 'i', 'g', 's'):
            v = self.ver_of(st, self.sig(it, ('u', 'k'), st))
            return ('elems', it, v) if v else ('elems', it)
        return ('elems', it)

    def elements(self, st, src, lid):
        """[(state, element)] for a generic iteration over src"""
        h = src[0]
        if h == 'rep':
            out = []
            for segs, facts, signs in src[3]:
                if len(segs) == 1 and segs[0][0] in ('e', 'kv'):
                    y = st.fork()
                    ok = True
                    for a, v in facts:
                        if y.facts.get(a, v) != v:
                            ok = False
                            break
                        y.setfact(a, v)
                    for d, sg in signs:
                        k = y.signs.get(d, frozenset((-1, 0, 1))) & sg
                        if not k:
                            ok = False
                            break
                        y.setsign(d, k)
                    if ok:
                        out.append((y, segs[0][1]))
                elif len(segs) == 0:
                    continue
                else:
                    return [(st, ('el', lid, ('elems', ('u', 'rep', src[1]))))]
            return out
        if h in ('rev', 'sorted', 'slice') and src[1][0] == 'rep':
            return self.elements(st, src[1], lid)
        if h in ('rev', 'sorted') and src[1][0] == 'cat':
            out = []
            for i, p in enumerate(src[1][1]):
                y = st.fork()
                if p[0] == 'one':
                    out.append((y, p[1]))
                else:
                    out.extend(self.elements(y, p[1], lid))
            return out
        if h in ('rev', 'sorted') and src[1][0] in ('enum', 'zip', 'items'):
            return self.elements(st, src[1], lid)
        if h == 'items':
            k = ('el', lid, ('keys',) + src[1:])
            return [(x, ('t', k, v)) for x, v in self.load_item(st, src[1], k)]
        if h == 'values':
            k = ('el', lid, ('keys',) + src[1:])
            return [(x, v) for x, v in self.load_item(st, src[1], k)]
        if h == 'enum':
            out = []
            idx = ('el', lid, ('range', ('pf', 'len', src[1])))
            for x, e in self.elements(st, src[1], lid):
                out.append((x, ('t', lin_add(idx, src[2]), e)))
            return out
        if h == 'zip':
            outs = [(st, ('t',))]
            for i, s in enumerate(src[1]):
                nxt = []
                for x, t in outs:
                    for y, e in self.elements(x, s, lid):
                        nxt.append((y, t + (e,)))
                outs = nxt
            return outs
        if h == 'map':
            out = []
            for x, e in self.elements(st, src[2], lid):
                out.extend(self.call_term(x, src[1], [e], {}, self.curnode))
            return out
        return [(st, ('el', lid, src))]

    def generic(self, st, node, lid, step, src):
        """fixpoint over one generic iteration; returns [(state, outcome)] where outcome None means exhausted"""
        self.nloops += 1
        known = self.loopmem.setdefault(lid, {'vars': set(), 'sigs': set(), 'objs': set(), 'totals': set()})
        if known is None:
            known = {}
        catch_depth = len(self.catch)
        for attempt in range(12):
            head = st.fork()
            self.purge(head, lid)
            self.havoc_head(st, head, lid, known)
            head.log = None
            base_facts, base_signs = head.facts, head.signs
            ref = head.fork()
            self.excs.append([])
            savedgen, self.genout = self.genout, []
            self.trial += 1
            sinklen = len(self.sink)
            savednode = self.curnode
            try:
                outs, exits = step(head)
            finally:
                self.trial -= 1
                exc = self.excs.pop()
                gen = self.genout
                self.genout = savedgen
            self.curnode = savednode
            if not self.changes(ref, outs, known):
                break
        else:
            raise Budget('loop does not stabilise')
        # final run, with events recorded
        head = st.fork()
        self.purge(head, lid)
        self.havoc_head(st, head, lid, known)
        head.log = None
        ref = head.fork()
        self.excs.append([])
        savedgen, self.genout = self.genout, []
        self.loop_heads.append(frozenset(ref.objs))
        self.loop_lids.append(lid)
        try:
            outs, exits = step(head)
        finally:
            self.loop_heads.pop()
            self.loop_lids.pop()
            exc = self.excs.pop()
            gen = self.genout
            self.genout = savedgen
        self.curnode = node
        outs = list(outs) + exc + gen
        self.changes(ref, outs, known)
        alts, backs, others = [], [], []
        for y, o in outs:
            if o is None or o[0] == 'continue':
                backs.append(y)
            else:
                others.append((y, o))
        phis = {}
        for (depth_uid, var) in known['vars']:
            fr = st.frame_of(depth_uid)
            if fr is None and var in phis:
                continue
            init = fr.env.get(var, ('undef',)) if fr is not None else ('undef',)
            bv = []
            for y in backs:
                f2 = y.frame_of(depth_uid)
                v = f2.env.get(var, ('undef',)) if f2 is not None else ('undef',)
                if v not in bv:
                    bv.append(v)
            phis[var] = (init, tuple(bv))
        segs = {}
        for y in backs:
            alts.append((tuple(y.events()), self.delta(ref.facts, y.facts), self.delta(ref.signs, y.signs),
                         tuple((var, self.env_of(y, uid, var)) for uid, var in sorted(known['vars'])), None))
        for y, o in others:
            alts.append((tuple(y.events()), self.delta(ref.facts, y.facts), self.delta(ref.signs, y.signs),
                         tuple((var, self.env_of(y, uid, var)) for uid, var in sorted(known['vars'])), o))
        # head values of stored locations
        info = {'lid': lid, 'src': src, 'alts': alts, 'phis': phis, 'site': self.site(st),
                'vars': sorted(v for _, v in known['vars']), 'sigs': frozenset(known['sigs']),
                'node': node, 'init_store': st.store, 'backs': backs, 'ref': ref, 'st0': st}
        self.loops_seen[lid] = info
        lev = ('loop', self.site(st), lid, src, tuple(alts), tuple(sorted(phis.items())))
        if not self.trial:
            self.sink.append(lev)
        keep_loop = self.cfg.all_loops or any(a[0] for a in alts)
        res = []
        seen_exit = []
        for y in exits:
            evs = y.events()
            y.log = st.log
            if keep_loop:
                y.emit(lev)
            for e in evs:
                y.emit(e)
            self.finish_objs(st, y, lid, known, ref, backs)
            res.append((y, None))
        for y, o in others:
            evs = y.events()
            y.log = st.log
            if keep_loop:
                y.emit(('loopx',) + lev[1:])
            for e in evs:
                y.emit(e)
            self.finish_objs(st, y, lid, known, ref, backs, partial=True)
            res.append((y, o))
        # raise / generator outcomes leave through the statement level
        final = []
        for y, o in res:
            if o is not None and o[0] == 'raise':
                self.excs[-1].append((y, o))
            elif o is not None and o[0] in ('genbreak', 'genret'):
                self.genout.append((y, o))
            else:
                final.append((y, o))
        return self.merge_outs(final)

    def env_of(self, st, uid, var):
        f = st.frame_of(uid)
        return f.env.get(var, ('undef',)) if f is not None else ('undef',)

    def delta(self, a, b):
        return tuple((k, v) for k, v in b.items() if a.get(k) != v)

    def purge(self, st, lid):
        """forgets facts about symbols of an earlier visit of the same loop"""
        def stale(t):
            stack = [t]
            while stack:
                x = stack.pop()
                if isinstance(x, tuple):
                    if len(x) >= 3 and x[0] in ('phi', 'el', 'mu', 'elk') and x[1] == lid:
                        return True
                    stack.extend(x)
            return False
        if self.loopmem.get(lid) and self.loopmem[lid].get('ran'):
            f = {k: v for k, v in st.facts.items() if not stale(k)}
            if len(f) != len(st.facts):
                st.facts = f
            g = {k: v for k, v in st.signs.items() if not stale(k)}
            if len(g) != len(st.signs):
                st.signs = g
        self.loopmem[lid]['ran'] = True

    def havoc_head(self, st, head, lid, known):
        fr = list(head.frames)
        for i, f in enumerate(fr):
            vs = [v for u, v in known['vars'] if u == f.uid]
            if vs:
                e = dict(f.env)
                for v in vs:
                    if v in e:
                        k = self.kind(e[v], st)
                        pk = self.phi_kind.get((lid, v))
                        self.phi_kind[(lid, v)] = self.join_kind(pk, k)
                        e[v] = ('phi', lid, v)
                    else:
                        e[v] = ('mu', lid, v)
                fr[i] = f.with_env(e)
        head.frames = tuple(fr)
        tok = ('L', lid)
        if known['sigs']:
            nv = dict(head.ver)
            for s in known['sigs']:
                nv[s] = tok
            head.ver = nv
            self.drop_sigs(head, known['sigs'])
        for oid in known['objs']:
            ob = head.objs.get(oid)
            if ob is None:
                continue
            head.setver(('it', ('o', oid), '*'), tok)
            head.drop({l for l in head.store if l[0] == 'i' and l[1] == ('o', oid)})
            if ob.kind in ('list', 'dict', 'set'):
                if oid in known['totals']:
                    head.setobj(oid, ob.with_items((('unk', tok),)))
                else:
                    head.setobj(oid, ob.with_items((('pre', lid),)))

    def join_kind(self, a, b):
        if a is None or a == b:
            return b
        if b == 'none' or a == 'none':
            x = a if b == 'none' else b
            if isinstance(x, tuple) and x[0] == 'opt':
                return x
            return ('opt', x) if x != 'any' else 'any'
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == 'opt' and x[1] == y:
                return x
        return 'any'

    def changes(self, ref, outs, known):
        """grows known with what the iteration changed; True when it grew"""
        grew = False
        for y, o in outs:
            if o is not None and o[0] != 'continue':
                continue
            for f in ref.frames:
                g = y.frame_of(f.uid)
                if g is None or g.env is f.env:
                    continue
                for k, v in g.env.items():
                    if k.startswith('\0'):
                        continue
                    w = f.env.get(k)
                    if w != v:
                        if w is not None and w[0] == 'phi' and w[1:] and (f.uid, k) in known['vars']:
                            self.note_phi(w, v, y)
                        if (f.uid, k) not in known['vars']:
                            known['vars'].add((f.uid, k))
                            grew = True
            if y.ver is not ref.ver:
                for k, v in y.ver.items():
                    if ref.ver.get(k) != v and k not in known['sigs']:
                        if k in self.cfg.invariant and self.same_values(ref, y, k):
                            continue
                        if k[0] == 'it' and isinstance(k[1], tuple) and k[1][0] == 'o':
                            if k[1][1] in ref.objs and k[1][1] not in known['objs']:
                                known['objs'].add(k[1][1])
                                grew = True
                            elif k[1][1] not in ref.objs:
                                pass
                            continue
                        known['sigs'].add(k)
                        grew = True
            if y.objs is not ref.objs:
                for oid, ob in y.objs.items():
                    old = ref.objs.get(oid)
                    if old is None or old is ob or old == ob:
                        continue
                    if oid not in known['objs']:
                        known['objs'].add(oid)
                        grew = True
                    elif ob.kind in ('list', 'dict', 'set') and oid not in known['totals']:
                        if not ob.items or ob.items[0][0] != 'pre' or any(x[0] == 'pre' for x in ob.items[1:]):
                            known['totals'].add(oid)
                            grew = True
            if y.store is not ref.store:
                for l, v in y.store.items():
                    if ref.store.get(l) != v:
                        if l[0] == 'f' and ('fld', l[2]) not in known['sigs']:
                            if l[1][0] == 'o' and l[1][1] not in ref.objs:
                                continue
                            known['sigs'].add(('fld', l[2]))
                            grew = True
        return grew

    def same_values(self, ref, y, sg):
        for l, v in y.store.items():
            if l[0] == 'i' and self.sig(l[1], l[2], y) == sg:
                w = ref.store.get(l)
                if w is None:
                    if root_of(l) in ('o', '?'):
                        continue
                    w = self.plain_item(ref.fork(), l[1], l[2])
                if w != v:
                    return False
        return True

    def note_phi(self, w, v, st):
        k = self.kind(v, st)
        if v == w:
            return
        if k == 'any' and v[0] in ('phi', 'u', 'mu'):
            return
        cur = self.phi_kind.get((w[1], w[2]))
        nk = self.join_kind(cur, k)
        if nk != cur:
            self.phi_kind[(w[1], w[2])] = nk
            self._kind_cache.clear()

    def finish_objs(self, st, y, lid, known, ref, backs, partial=False):
        """contents of append-only containers after the loop: before + what the iterations appended;
        the same for strings built by concatenation"""
        for oid in known['objs']:
            if oid in known['totals']:
                continue
            ob = y.objs.get(oid)
            old = st.objs.get(oid)
            if ob is None or old is None or ob.kind not in ('list', 'dict', 'set'):
                continue
            if not ob.items or ob.items[0] != ('pre', lid):
                continue
            alts = []
            for b in backs:
                o2 = b.objs.get(oid)
                seg = tuple(o2.items[1:])
                a = (seg, self.delta(ref.facts, b.facts), self.delta(ref.signs, b.signs))
                if a not in alts:
                    alts.append(a)
            rep = ('rep', lid, self.loop_src(lid), tuple(alts))
            y.setobj(oid, ob.with_items(tuple(old.items) + (rep,) + tuple(ob.items[1:])))
        fr = list(y.frames)
        ch = False
        for i, f in enumerate(fr):
            e = None
            for u, v in known['vars']:
                if u != f.uid:
                    continue
                cur = f.env.get(v)
                if cur is None:
                    continue
                phi = ('phi', lid, v)
                tail = None
                if cur == phi:
                    tail = ()
                elif cur[0] == 'cat' and cur[1] == phi:
                    tail = cur[2:]
                if tail is None or self.phi_kind.get((lid, v)) != 'str':
                    continue
                init = self.env_of(st, u, v)
                if init == ('undef',):
                    continue
                alts = []
                ok = True
                for b in backs:
                    bv = self.env_of(b, u, v)
                    if bv == phi:
                        seg = ()
                    elif bv[0] == 'cat' and bv[1] == phi:
                        seg = bv[2:]
                    else:
                        ok = False
                        break
                    a = (seg, self.delta(ref.facts, b.facts), self.delta(ref.signs, b.signs))
                    if a not in alts:
                        alts.append(a)
                if not ok:
                    continue
                rep = ('srep', lid, self.loop_src(lid), tuple(alts))
                e = dict(f.env) if e is None else e
                e[v] = mk_cat(init, rep, *tail)
            if e is not None:
                fr[i] = f.with_env(e)
                ch = True
        if ch:
            y.frames = tuple(fr)

    def loop_src(self, lid):
        i = self.loops_seen.get(lid)
        return i['src'] if i else None

    # ---- generators ------------------------------------------------------------------------
    def run_gen(self, st, gen, handler, ctx=False):
        """runs a generator object; handler(state, value) -> [(state, outcome)] runs in the consumer's frame"""
        fm, args, kwargs, closure = st.objs[gen[1]].extra
        env = self.bind(st, fm, list(args), dict(kwargs), fm.node, (), ())
        if env is None:
            return []
        self.uid += 1
        gid = self.uid
        caller = st.frames[-1]
        cuid = caller.uid
        n0 = len(st.frames)
        if closure is not None:
            env['\0closure'] = closure
        fr = Frame(gid, fm, env, fm.module, fm.cls, caller.callpath + ((fm.node.lineno, 'g'),))
        st.frames = st.frames + (fr,)
        self.visited_funcs.add(fm.qual)

        def on_yield(y, val):
            # suspend the generator's frames, run the consumer's code, resume
            idx = next(i for i, f in enumerate(y.frames) if f.uid == gid)
            genframes = y.frames[idx:]
            gens = y.gens
            y.frames = y.frames[:idx]
            y.gens = y.gens[:-1]
            out = []
            for z, o in handler(y, val):
                z.frames = z.frames[:n0] + genframes
                z.gens = gens
                if o is None or o[0] == 'continue':
                    out.append((z, None))
                elif o[0] == 'raise':
                    out.append((z, o))
                elif ctx:
                    z.setvar_in(gid, '\0pending', o)
                    out.append((z, None))
                else:
                    out.append((z, ('genbreak', gid, o)))
            return out
        self.genhandlers[gid] = on_yield
        st.gens = st.gens + (gid,)
        savedgen, self.genout = self.genout, []
        outs = self.exec_block(fm.node.body, st)
        outs = list(outs) + self.genout
        self.genout = savedgen
        res = []
        for y, o in outs:
            gf = y.frame_of(gid)
            pend = gf.env.get('\0pending') if gf is not None else None
            y.frames = y.frames[:n0]
            y.gens = tuple(g for g in y.gens if g != gid)
            if o is None or o[0] == 'return':
                res.append((y, pend))
            elif o[0] == 'genbreak' and o[1] == gid:
                res.append((y, o[2]))
            elif o[0] == 'genbreak':
                self.genout.append((y, o))
            else:
                res.append((y, o))
        fin = []
        for y, o in res:
            if o is not None and o[0] == 'raise':
                self.excs[-1].append((y, o))
            else:
                fin.append((y, o))
        return self.merge_outs(fin)

    genhandlers = {}
