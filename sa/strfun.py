"""Abstract interpretation of functions over one unknown string: every path is kept with the regular language of the
inputs that take it, every string result as a chain of transducers applied to the input."""
import ast
import re
import re._parser as sp
import string as _string
from .lang import *

STRTYPES = ('str', 'basestring', 'unicode', 'text_type', 'string_types')
NOTSTR = ('bool', 'int', 'float', 'list', 'tuple', 'dict', 'set', 'bytes', 'Node', 'NoneType', 'complex')
PREDS = ('isalnum', 'isalpha', 'isdigit', 'isdecimal', 'isnumeric', 'isspace', 'isascii', 'isprintable')
MAX_DEPTH, MAX_PATHS = 12, 400


def K(v):
    return ('k', v)


INPUT = ('s', ())
EXTERNAL = {'string.ascii_letters': _string.ascii_letters, 'string.digits': _string.digits, 'string.punctuation': _string.punctuation,
            'string.ascii_lowercase': _string.ascii_lowercase, 'string.ascii_uppercase': _string.ascii_uppercase,
            'string.whitespace': _string.whitespace, 'string.printable': _string.printable, 'string.hexdigits': _string.hexdigits,
            're.UNICODE': re.UNICODE, 're.U': re.U, 're.S': re.S, 're.DOTALL': re.S, 're.I': re.I, 're.IGNORECASE': re.I,
            're.A': re.A, 're.ASCII': re.A, 're.X': re.X, 're.VERBOSE': re.X, 're.M': re.M, 're.MULTILINE': re.M}


class Ret(Exception):
    pass


def reachable(prog, f, seen=None):
    """functions and module constants a function refers to"""
    seen = {} if seen is None else seen
    if id(f.node) in seen:
        return seen
    seen[id(f.node)] = f
    todo = [(f.module, f.node)]
    while todo:
        m, node = todo.pop()
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                b = prog.lookup(m, n.id)
                if b is None:
                    continue
                if b[0] == 'func':
                    reachable(prog, b[1], seen)
                elif b[0] == 'expr' and id(b[1]) not in seen:
                    seen[id(b[1])] = b[1]
                    todo.append((prog.module_of(m, n.id), b[1]))
    return seen


def mentioned(prog, f):
    """character sets the function may distinguish"""
    sets = []
    for x in reachable(prog, f).values():
        node = getattr(x, 'node', x)
        docs = {id(n.value) for n in ast.walk(node) if isinstance(n, ast.Expr)}
        for n in ast.walk(node):
            if id(n) in docs:
                continue
            if isinstance(n, ast.Constant):
                if isinstance(n.value, str) and len(n.value) < 400:
                    sets += [cs_chars(c) for c in set(n.value)]
                    try:
                        sets += re_sets(n.value) + re_sets(n.value, re.ASCII) + re_sets(n.value, re.I)
                    except (Unknown, RecursionError, OverflowError):
                        pass
                elif isinstance(n.value, int) and not isinstance(n.value, bool) and 0 <= n.value <= MAXC:
                    sets.append(((n.value, n.value),))
                    sets.append(((0, n.value),))
            elif isinstance(n, ast.Attribute):
                if n.attr in PREDS or n.attr == 'isidentifier':
                    sets.append(cs_pred(n.attr))
                    if n.attr == 'isidentifier':
                        sets.append(cs_and(cs_pred('isidentifier'), start_chars()))
                elif 'string.' + n.attr in EXTERNAL:
                    sets += [cs_chars(c) for c in EXTERNAL['string.' + n.attr]]
    return sets


def start_chars():
    if 'istart' not in mentioned.__dict__:
        iv = [(i, i) for lo, hi in cs_pred('isidentifier') for i in range(lo, hi + 1) if chr(i).isidentifier()]
        mentioned.istart = cs_norm(iv)
    return mentioned.istart


class Strings:
    def __init__(self, prog, ab):
        self.prog, self.ab = prog, ab
        self.depth = 0
        self.rx = {}
        self.all = everything(ab)
        self.memo = {}
        self.site = None

    # -- functions ---------------------------------------------------------------------------------------------
    def call(self, f, args, kw, L):
        """[(language, result)] of a function whose string argument is the analysed input"""
        if self.depth > MAX_DEPTH:
            raise Unknown('call depth')
        a = f.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Unknown('signature')
        names = [x.arg for x in a.args]
        env = {}
        if len(args) > len(names):
            raise Unknown('arguments')
        for n, v in zip(names, args):
            env[n] = v
        for n, v in kw.items():
            env[n] = v
        dn = names[len(names) - len(a.defaults):]
        for n, d in list(zip(dn, a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in env:
                (l2, v), = self.ev(d, {}, self.all, f.module)
                env[n] = v
        for n in names:
            if n not in env:
                raise Unknown('missing argument')
        self.depth += 1
        try:
            out = []
            for L2, e2, o in self.block(f.node.body, env, L, f.module):
                if o is None:
                    out.append((L2, K(None)))
                elif o[0] == 'return':
                    out.append((L2, o[1]))
                else:
                    out.append((L2, ('raise',)))
            return self.join(out)
        finally:
            self.depth -= 1

    def join(self, out):
        r = []
        for L, v in out:
            if L.empty():
                continue
            for i, (M, w) in enumerate(r):
                if w == v:
                    r[i] = (M | L, w)
                    break
            else:
                r.append((L, v))
        return r

    # -- statements --------------------------------------------------------------------------------------------
    def block(self, body, env, L, m):
        cur, out = [(L, env)], []
        for s in body:
            nxt = []
            for L1, e1 in cur:
                for L2, e2, o in self.stmt(s, e1, L1, m):
                    if L2.empty():
                        continue
                    if o is None:
                        nxt.append((L2, e2))
                    else:
                        out.append((L2, e2, o))
            cur = []
            for L2, e2 in nxt:
                for i, (L3, e3) in enumerate(cur):
                    if e3 == e2:
                        cur[i] = (L3 | L2, e3)
                        break
                else:
                    cur.append((L2, e2))
            if len(cur) + len(out) > MAX_PATHS:
                raise Unknown('paths')
        return out + [(L1, e1, None) for L1, e1 in cur]

    def stmt(self, s, env, L, m):
        if isinstance(s, ast.Return):
            if s.value is None:
                return [(L, env, ('return', K(None)))]
            return [(L2, env, ('return', v)) for L2, v in self.ev(s.value, env, L, m)]
        if isinstance(s, ast.If):
            out = []
            for L2, b in self.cond(s.test, env, L, m):
                out += self.block(s.body if b else s.orelse, env, L2, m)
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is None:
                return [(L, env, None)]
            out = []
            for L2, v in self.ev(s.value, env, L, m):
                e2 = dict(env)
                for t in ts:
                    self.assign(t, v, e2)
                out.append((L2, e2, None))
            return out
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            e = ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value)
            out = []
            for L2, v in self.ev(e, env, L, m):
                e2 = dict(env)
                e2[s.target.id] = v
                out.append((L2, e2, None))
            return out
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return [(L, env, None)]
        if isinstance(s, ast.Expr):
            return [(L2, env, None) for L2, v in self.ev(s.value, env, L, m)]
        if isinstance(s, ast.Break):
            return [(L, env, ('break',))]
        if isinstance(s, ast.Continue):
            return [(L, env, ('continue',))]
        if isinstance(s, ast.Raise):
            return [(L, env, ('raise',))]
        if isinstance(s, ast.For):
            return self.loop(s, env, L, m)
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.Global)):
            raise Unknown('statement')
        raise Unknown('statement ' + type(s).__name__)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v)
            if len(vs) != len(t.elts):
                raise Unknown('unpacking')
            for a, b in zip(t.elts, vs):
                self.assign(a, b, env)
        else:
            raise Unknown('assignment target')

    def items(self, v):
        """elements of a constant iterable"""
        if v[0] == 'seq':
            return list(v[1])
        if v[0] == 'map':
            return [k for k, _ in v[1]]
        if v[0] == 'k' and isinstance(v[1], str):
            return [K(c) for c in v[1]]
        if v[0] == 'groups':
            return [('grp', v[1], v[2], n) for n in range(1, v[3] + 1)]
        raise Unknown('iteration over ' + str(v[0]))

    def loop(self, s, env, L, m):
        out = []
        for L0, it in self.ev(s.iter, env, L, m):
            if it == INPUT:
                out += self.charloop(s, env, L0, m)
                continue
            cur = [(L0, env)]
            for x in self.items(it):
                nxt = []
                for L1, e1 in cur:
                    e2 = dict(e1)
                    self.assign(s.target, x, e2)
                    for L2, e3, o in self.block(s.body, e2, L1, m):
                        if o is None or o[0] == 'continue':
                            nxt.append((L2, e3))
                        elif o[0] == 'break':
                            out.append((L2, e3, None))
                        else:
                            out.append((L2, e3, o))
                cur = nxt
                if len(cur) + len(out) > MAX_PATHS:
                    raise Unknown('paths')
            for L1, e1 in cur:
                if s.orelse:
                    out += self.block(s.orelse, e1, L1, m)
                else:
                    out.append((L1, e1, None))
        return out

    def charloop(self, s, env, L, m):
        """for c in input: if P(c): <constant action>"""
        body = [x for x in s.body if not isinstance(x, ast.Pass) and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(body) != 1 or not isinstance(body[0], ast.If) or not isinstance(s.target, ast.Name):
            raise Unknown('loop over the characters')
        b = body[0]
        p = self.charpred(b.test, s.target.id, env, m)
        act, other = b.body, b.orelse
        if not b.orelse and all(isinstance(x, (ast.Continue, ast.Pass)) for x in b.body):
            raise Unknown('loop over the characters')
        if other and not all(isinstance(x, (ast.Continue, ast.Pass)) for x in other):
            raise Unknown('loop over the characters')
        for x in act:
            if isinstance(x, (ast.Return, ast.Assign)) and isinstance(x.value, ast.Constant) or isinstance(x, (ast.Break, ast.Continue, ast.Pass, ast.Raise)):
                continue
            raise Unknown('loop over the characters')
        C = containing(self.ab, p)
        out = []
        for L2, e2, o in self.block(act, dict(env), L & C, m):
            out.append((L2, e2, None if o is not None and o[0] in ('break', 'continue') else o))
            if s.orelse and not (o is not None and o[0] in ('break', 'return', 'raise')):
                raise Unknown('loop over the characters')
        if s.orelse:
            out += self.block(s.orelse, env, L - C, m)
        else:
            out.append((L - C, env, None))
        return out

    # -- conditions --------------------------------------------------------------------------------------------
    def cond(self, e, env, L, m):
        """[(language, bool)]"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(L2, not b) for L2, b in self.cond(e.operand, env, L, m)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, out = [L], []
            for i, v in enumerate(e.values):
                nxt = []
                for L1 in cur:
                    if L1.empty():
                        continue
                    for L2, b in self.cond(v, env, L1, m):
                        if b == isand:
                            nxt.append(L2)
                        else:
                            out.append((L2, b))
                cur = nxt
            return out + [(x, isand) for x in cur]
        out = []
        for L2, v in self.ev(e, env, L, m):
            out += self.truth(v, L2)
        return out

    def split(self, L, C):
        return [(x, b) for x, b in ((L & C, True), (L - C, False)) if not x.empty()]

    def truth(self, v, L):
        if v[0] == 'k':
            return [(L, bool(v[1]))]
        if v[0] == 'lang':
            return self.split(L, v[1])
        if v[0] == 's':
            C = lengths(self.ab, lambda n: n > 0)
            return self.split(L, self.pre(v[1], C))
        if v[0] in ('seq', 'map'):
            return [(L, len(v[1]) > 0)]
        if v[0] in ('m', 're', 'fn'):
            return [(L, True)]
        if v[0] == 'grp':
            return self.split(L, self.group(v, lengths(self.ab, lambda n: n > 0)))
        raise Unknown('truth of ' + v[0])

    def group(self, v, A):
        """inputs for which the group is in A"""
        _, rx, mode, n = v
        G = group_language(self.ab, rx[0], rx[1], n)
        yes = regex(self.ab, rx[0], rx[1], mode, {n: A})
        no = regex(self.ab, rx[0], rx[1], mode, {n: G - A})
        if not (yes & no).empty():
            raise Unknown('ambiguous group')
        return yes

    def pre(self, steps, R):
        for T in reversed(steps):
            R = preimage(self.transducer(T), R)
        return R

    def transducer(self, t):
        k = ('T',) + t
        if k not in self.memo:
            h = t[0]
            ab = self.ab
            if h == 'wrap':
                T = Wrap(ab, t[1], t[2])
            elif h == 'rep':
                T = Replace(ab, t[1], t[2])
            elif h == 'hom':
                T = Hom(ab, {ab.sym(a): tuple(ab.syms(b)) for a, b in t[1]})
            elif h == 'drop':
                s = ab.of(t[1])
                T = Hom(ab, {x: () for x in s})
            elif h == 'sub':
                T = self.subst(t[1], t[2], t[3])
            else:
                raise Unknown(h)
            self.memo[k] = T
        return self.memo[k]

    def subst(self, pat, flags, repl):
        p = parse(pat, flags)
        fl = p.state.flags
        seq = [(str(op), av) for op, av in p]
        grp = None
        if seq and seq[0][0] == 'SUBPATTERN':
            g, add, rem, sub = seq[0][1]
            if len(sub) == 1 and not add and not rem:
                grp = g
                seq[0] = (str(sub[0][0]), sub[0][1])
        op, av = seq[0]
        if op == 'LITERAL':
            cs = lit_set(av, fl)
        elif op == 'NOT_LITERAL':
            cs = cs_not(lit_set(av, fl))
        elif op == 'IN':
            cs = in_set(av, fl)
        else:
            raise Unknown('pattern of a substitution')
        syms = self.ab.of(cs)
        try:
            tpl = sp.parse_template(repl, re.compile(pat, flags))
        except Exception:
            raise Unknown('replacement template')
        pieces = [x for x in (tpl if isinstance(tpl, list) else list(tpl[1]))]

        def out(s):
            r = ()
            for x in pieces:
                if x is None:
                    continue
                if isinstance(x, int):
                    if x not in (0, grp):
                        raise Unknown('replacement template')
                    r += (s,)
                else:
                    r += tuple(self.ab.syms(x))
            return r
        if len(seq) == 1:
            return Hom(self.ab, {s: out(s) for s in syms})
        if len(seq) == 2 and seq[1][0] in ('ASSERT', 'ASSERT_NOT') and seq[1][1][0] == 1:
            b = Builder(self.ab)
            s, t = b.seq(seq[1][1][1], fl)
            rest = b.dfa(s, t, 'match')
            outs = {out(s) for s in syms}
            if len(outs) != 1:
                raise Unknown('replacement template')
            return Sub(self.ab, syms, rest, seq[1][0] == 'ASSERT_NOT', outs.pop())
        raise Unknown('pattern of a substitution')

    def out(self, L, v):
        """language of the results"""
        if v[0] == 'k' and isinstance(v[1], str):
            return words(self.ab, [v[1]])
        if v[0] != 's':
            raise Unknown('result')
        for t in v[1]:
            L = image(L, self.transducer(t))
        return L

    # -- expressions -------------------------------------------------------------------------------------------
    def evs(self, es, env, L, m):
        """[(language, [values])]"""
        cur = [(L, [])]
        for e in es:
            cur = [(L2, vs + [v]) for L1, vs in cur for L2, v in self.ev(e, env, L1, m)]
        return cur

    def ev(self, e, env, L, m):
        if L.empty():
            return []
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None:
            raise Unknown('expression ' + type(e).__name__)
        return f(e, env, L, m)

    def e_Constant(self, e, env, L, m):
        return [(L, K(e.value))]

    def e_Name(self, e, env, L, m):
        if e.id in env:
            return [(L, env[e.id])]
        b = self.prog.lookup(m, e.id)
        if b is None:
            return [(L, ('bi', e.id))]
        if b[0] == 'func':
            return [(L, ('fn', b[1]))]
        if b[0] == 'ext':
            d = b[1]
            return [(L, K(EXTERNAL[d]) if d in EXTERNAL else ('ext', d))]
        if b[0] == 'expr':
            k = ('const', id(b[1]))
            if k not in self.memo:
                if len(m.multi.get(e.id, [])) > 1:
                    raise Unknown('several definitions of ' + e.id)
                r = self.ev(b[1], {}, self.all, self.prog.module_of(m, e.id))
                if len(r) != 1:
                    raise Unknown('module constant')
                self.memo[k] = r[0][1]
            return [(L, self.memo[k])]
        if b[0] == 'class':
            return [(L, ('bi', e.id))]
        raise Unknown('name ' + e.id)

    def e_Attribute(self, e, env, L, m):
        out = []
        for L2, v in self.ev(e.value, env, L, m):
            if v[0] == 'ext':
                d = v[1] + '.' + e.attr
                out.append((L2, K(EXTERNAL[d]) if d in EXTERNAL else ('ext', d)))
            else:
                out.append((L2, ('meth', v, e.attr)))
        return out

    def e_IfExp(self, e, env, L, m):
        out = []
        for L2, b in self.cond(e.test, env, L, m):
            out += self.ev(e.body if b else e.orelse, env, L2, m)
        return out

    def e_BoolOp(self, e, env, L, m):
        isand = isinstance(e.op, ast.And)
        cur, out = [L], []
        for i, x in enumerate(e.values):
            nxt = []
            for L1 in cur:
                for L2, v in self.ev(x, env, L1, m):
                    if i == len(e.values) - 1:
                        out.append((L2, v))
                        continue
                    for L3, b in self.truth(v, L2):
                        if b == isand:
                            nxt.append(L3)
                        else:
                            out.append((L3, K(b) if v[0] in ('lang', 'm') or v == K(None) and isand else v))
            cur = nxt
        return out

    def e_UnaryOp(self, e, env, L, m):
        if isinstance(e.op, ast.Not):
            return [(L2, K(b)) for L2, b in self.cond(e, env, L, m)]
        if isinstance(e.op, ast.USub):
            return [(L2, K(-v[1])) for L2, v in self.ev(e.operand, env, L, m) if v[0] == 'k']
        raise Unknown('operator')

    def e_List(self, e, env, L, m):
        return [(L2, ('seq', tuple(vs))) for L2, vs in self.evs(e.elts, env, L, m)]

    e_Tuple = e_Set = e_List

    def e_Dict(self, e, env, L, m):
        if any(k is None for k in e.keys):
            raise Unknown('dict')
        return [(L2, ('map', tuple(zip(vs[:len(e.keys)], vs[len(e.keys):]))))
                for L2, vs in self.evs(list(e.keys) + list(e.values), env, L, m)]

    def e_BinOp(self, e, env, L, m):
        out = []
        for L2, (a, b) in self.evs([e.left, e.right], env, L, m):
            if isinstance(e.op, ast.Add):
                out.append((L2, self.concat(a, b)))
            elif isinstance(e.op, ast.BitOr) and a[0] == b[0] == 'k':
                out.append((L2, K(a[1] | b[1])))
            elif isinstance(e.op, ast.Mod) and a[0] == 'k' and isinstance(a[1], str):
                out.append((L2, self.percent(a[1], b)))
            elif isinstance(e.op, ast.Mult) and a[0] == b[0] == 'k':
                out.append((L2, K(a[1] * b[1])))
            else:
                raise Unknown('operator')
        return out

    def concat(self, a, b):
        if a[0] == b[0] == 'k' and isinstance(a[1], str) and isinstance(b[1], str):
            return K(a[1] + b[1])
        if a[0] == b[0] == 'seq':
            return ('seq', a[1] + b[1])
        if a[0] == 'k' and isinstance(a[1], str) and b[0] == 's':
            return ('s', b[1] + (('wrap', a[1], ''),))
        if b[0] == 'k' and isinstance(b[1], str) and a[0] == 's':
            return ('s', a[1] + (('wrap', '', b[1]),))
        raise Unknown('concatenation')

    def glue(self, parts):
        cur = K('')
        for p in parts:
            cur = self.concat(cur, p)
        return cur

    def percent(self, fmt, arg):
        args = list(arg[1]) if arg[0] == 'seq' else [arg]
        parts = re.split(r'(%[sd%])', fmt)
        out, n = [], 0
        for p in parts:
            if p == '%%':
                out.append(K('%'))
            elif p in ('%s', '%d'):
                out.append(args[n])
                n += 1
            elif '%' in p:
                raise Unknown('format')
            elif p:
                out.append(K(p))
        return self.glue(out)

    def e_JoinedStr(self, e, env, L, m):
        vs = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                if x.format_spec is not None or x.conversion not in (-1, 115):
                    raise Unknown('format')
                vs.append(x.value)
            else:
                vs.append(x)
        return [(L2, self.glue(v)) for L2, v in self.evs(vs, env, L, m)]

    def e_Subscript(self, e, env, L, m):
        out = []
        if isinstance(e.slice, ast.Slice):
            raise Unknown('slice')
        for L2, (a, i) in self.evs([e.value, e.slice], env, L, m):
            if a[0] == 'map':
                hit = [v for k, v in a[1] if k == i]
                if i[0] != 'k' or not hit:
                    raise Unknown('subscript')
                out.append((L2, hit[-1]))
            elif a[0] == 'seq' and i[0] == 'k' and isinstance(i[1], int) and -len(a[1]) <= i[1] < len(a[1]):
                out.append((L2, a[1][i[1]]))
            elif a[0] == 'm' and i[0] == 'k' and isinstance(i[1], int):
                out.append((L2, ('grp', a[1], a[2], i[1]) if i[1] else self.whole(a)))
            elif a == INPUT and i in (K(0), K(-1)):
                out.append((L2, ('end', i[1])))
            else:
                raise Unknown('subscript')
        return out

    def whole(self, a):
        if a[2] == 'full' or a[1][0].endswith('\\Z'):
            return INPUT
        raise Unknown('group 0')

    def e_Compare(self, e, env, L, m):
        if len(e.ops) == 1:
            return self.compare(e.left, e.ops[0], e.comparators[0], env, L, m)
        vals = [e.left] + list(e.comparators)
        cur, out = [L], []
        for a, op, b in zip(vals, e.ops, vals[1:]):
            nxt = []
            for L1 in cur:
                for L2, v in self.compare(a, op, b, env, L1, m):
                    for L3, t in self.truth(v, L2):
                        (nxt if t else out).append(L3 if t else (L3, K(False)))
            cur = nxt
        return out + [(x, K(True)) for x in cur]

    def compare(self, le, op, re_, env, L, m):
        out = []
        for L2, (a, b) in self.evs([le, re_], env, L, m):
            out += self.cmp(a, op, b, L2)
        return out

    def cmp(self, a, op, b, L):
        neg = isinstance(op, (ast.NotEq, ast.NotIn, ast.IsNot))

        def res(C):
            return [(x, K(t != neg)) for x, t in self.split(L, C)]
        if a[0] == 'k' and b[0] == 'k':
            f = {ast.Eq: lambda x, y: x == y, ast.NotEq: lambda x, y: x != y, ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
                 ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y, ast.Is: lambda x, y: x is y, ast.IsNot: lambda x, y: x is not y,
                 ast.In: lambda x, y: x in y, ast.NotIn: lambda x, y: x not in y}[type(op)]
            return [(L, K(bool(f(a[1], b[1]))))]
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a == ('obj',):
                return [(L, K(True)), (L, K(False))]
            if b == K(None) or b[0] == 'k' and isinstance(b[1], bool):
                if a[0] in ('s', 'm', 'seq', 'map', 'grp'):
                    return [(L, K(neg))]
            raise Unknown('identity')
        if isinstance(op, (ast.Eq, ast.NotEq)):
            if b[0] in ('s', 'end', 'len', 'grp') and a[0] == 'k':
                a, b = b, a
            if b[0] == 'k':
                if a[0] == 's':
                    if not isinstance(b[1], str):
                        return [(L, K(neg))]
                    return res(self.pre(a[1], words(self.ab, [b[1]])))
                if a[0] == 'end' and isinstance(b[1], str):
                    return res(self.edge(a[1], b[1]))
                if a[0] == 'len':
                    return res(lengths(self.ab, lambda n: n == b[1]))
                if a[0] == 'grp':
                    return res(self.group(a, words(self.ab, [b[1]])))
                if a[0] in ('m', 'seq'):
                    return [(L, K(neg))]
            raise Unknown('comparison')
        if isinstance(op, (ast.In, ast.NotIn)):
            if a[0] in ('s', 'grp') and b[0] in ('seq', 'map'):
                ws = [x[1] for x in self.items(b) if x[0] == 'k' and isinstance(x[1], str)]
                if len(ws) != len(self.items(b)):
                    raise Unknown('membership')
                W = words(self.ab, ws)
                return res(self.pre(a[1], W) if a[0] == 's' else self.group(a, W))
            if a[0] == 'k' and isinstance(a[1], str) and b[0] == 's':
                return res(self.pre(b[1], substring(self.ab, a[1])))
            if a[0] == 'end' and b[0] == 'k' and isinstance(b[1], str):
                C = nothing(self.ab)
                for c in b[1]:
                    C = C | self.edge(a[1], c)
                return res(C)
            if a[0] == 'end' and b[0] == 'seq':
                C = nothing(self.ab)
                for c in b[1]:
                    if c[0] != 'k':
                        raise Unknown('membership')
                    C = C | self.edge(a[1], c[1])
                return res(C)
            if a[0] == 'k' and b[0] == 'seq' and all(x[0] == 'k' for x in b[1]):
                return [(L, K((a in b[1]) != neg))]
            raise Unknown('membership')
        if a[0] == 'len' and b[0] == 'k':
            f = {ast.Lt: lambda n: n < b[1], ast.LtE: lambda n: n <= b[1], ast.Gt: lambda n: n > b[1], ast.GtE: lambda n: n >= b[1]}[type(op)]
            if b[1] > 10:
                raise Unknown('length')
            return res(lengths(self.ab, f))
        raise Unknown('comparison')

    def edge(self, i, c):
        if len(c) != 1:
            return nothing(self.ab)
        return regex(self.ab, (re.escape(c) + '.*') if i == 0 else ('.*' + re.escape(c)), re.S)

    # -- calls -------------------------------------------------------------------------------------------------
    def e_Call(self, e, env, L, m):
        if isinstance(e.func, ast.Name) and e.func.id in ('any', 'all', 'list', 'tuple', 'set', 'sum', 'bool', 'len', 'sorted') and e.func.id not in env \
                and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            return self.compre(e.args[0], e.func.id, env, L, m)
        out = []
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            raise Unknown('call')
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'join' and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.joincomp(e, env, L, m)
        for L1, f in self.ev(e.func, env, L, m):
            for L2, vs in self.evs(list(e.args) + [k.value for k in e.keywords], env, L1, m):
                args = vs[:len(e.args)]
                kw = {k.arg: v for k, v in zip(e.keywords, vs[len(e.args):])}
                out += self.apply(f, args, kw, L2, m)
        return out

    def apply(self, f, args, kw, L, m):
        if f[0] == 'fn':
            return self.func(f[1], args, kw, L)
        if f[0] == 'bi':
            return self.builtin(f[1], args, kw, L)
        if f[0] == 'ext':
            d = f[1]
            if d.startswith('builtins.') or d.startswith('past.builtins.'):
                return self.builtin(d.split('.')[-1], args, kw, L)
            if d == 're.compile':
                fl = kw.get('flags', args[1] if len(args) > 1 else K(0))
                if args[0][0] == 'k' and fl[0] == 'k':
                    return [(L, ('re', (args[0][1], int(fl[1]))))]
            if d in ('re.match', 're.search', 're.fullmatch', 're.sub'):
                if args[0][0] == 'k':
                    fl = kw.get('flags', K(0))
                    n = {'re.match': 2, 're.search': 2, 're.fullmatch': 2, 're.sub': 4}[d]
                    if len(args) > n:
                        fl = args[n]
                    if fl[0] == 'k' and len(args) <= n + 1:
                        return self.method(('re', (args[0][1], int(fl[1]))), d[3:], args[1:n] if d != 're.sub' else args[1:3], {}, L, m)
                if args[0][0] == 're':
                    return self.method(args[0], d[3:], args[1:], {}, L, m)
            if d == 'functools.lru_cache':
                return [(L, ('bi', 'identity'))]
            raise Unknown('call of ' + d)
        if f[0] == 'meth':
            return self.method(f[1], f[2], args, kw, L, m)
        raise Unknown('call')

    def func(self, fm, args, kw, L):
        """call of a function of the repository; its string argument may be the input, a group or a derived string"""
        ss = [v for v in list(args) + list(kw.values()) if v[0] in ('s', 'grp', 'm', 'end', 'len', 'groups')]
        if not ss:
            return [(L, v) for L2, v in self.call(fm, args, kw, self.all)]
        if any(v[0] not in ('s', 'grp') for v in ss) or any(v != ss[0] for v in ss):
            if all(v[0] != 'grp' for v in ss) and all(v[0] != 's' or v == INPUT for v in ss):
                return self.call(fm, args, kw, L)
            raise Unknown('arguments of ' + fm.name)
        v0 = ss[0]
        if v0 == INPUT:
            return self.call(fm, args, kw, L)
        sub = lambda v: INPUT if v == v0 else v
        a2, k2 = [sub(v) for v in args], {k: sub(v) for k, v in kw.items()}
        out = []
        if v0[0] == 's':
            for M, v in self.call(fm, a2, k2, self.out(L, v0)):
                r = ('s', v0[1] + v[1]) if v[0] == 's' else v
                if r[0] not in ('s', 'k', 'raise'):
                    raise Unknown('result')
                out.append((L & self.pre(v0[1], M), r))
        else:
            G = group_language(self.ab, v0[1][0], v0[1][1], v0[3])
            for M, v in self.call(fm, a2, k2, G):
                if v == INPUT:
                    v = v0
                if v[0] not in ('k', 'grp', 'raise'):
                    raise Unknown('result')
                out.append((L & self.group(v0, M), v))
        return out

    def builtin(self, n, args, kw, L):
        if n == 'isinstance' and len(args) == 2:
            ts = self.items(args[1]) if args[1][0] == 'seq' else [args[1]]
            names = [str(t[1]).split('.')[-1] for t in ts if t[0] in ('bi', 'ext')]
            if len(names) == len(ts) and args[0][0] in ('s', 'grp'):
                if any(x in STRTYPES or x == 'object' for x in names):
                    return [(L, K(True))]
                if all(x in NOTSTR for x in names):
                    return [(L, K(False))]
            if args[0] == ('obj',) and len(names) == len(ts):
                if any(x in STRTYPES for x in names) and all(x in STRTYPES for x in names):
                    return [(L, K(False))]
                return [(L, K(True)), (L, K(False))] if 'object' not in names else [(L, K(True))]
            if args[0][0] == 'k' and len(names) == len(ts) and all(x in ('str', 'bool', 'int') for x in names):
                return [(L, K(isinstance(args[0][1], tuple({'str': str, 'bool': bool, 'int': int}[x] for x in names))))]
            raise Unknown('isinstance')
        if n in ('str', 'text_type', 'unicode', 'repr') and args == [('obj',)]:
            return [(L, ('text',))]
        if n in ('str', 'identity', 'text_type', 'unicode') and len(args) == 1:
            if args[0][0] in ('s', 'grp') or args[0][0] == 'k' and isinstance(args[0][1], str):
                return [(L, args[0])]
        if n in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'iter') and len(args) == 1 and args[0][0] in ('seq', 'map'):
            return [(L, ('seq', tuple(self.items(args[0]))))]
        if n in ('list', 'tuple', 'set', 'frozenset') and len(args) == 1 and args[0][0] == 'k' and isinstance(args[0][1], str):
            return [(L, ('seq', tuple(self.items(args[0]))))]
        if n == 'dict' and not args:
            return [(L, ('map', tuple((K(k), v) for k, v in kw.items())))]
        if n == 'dict' and len(args) == 1 and args[0][0] == 'seq':
            return [(L, ('map', tuple(tuple(self.items(x)) for x in args[0][1])))]
        if n == 'len' and len(args) == 1:
            if args[0] == INPUT:
                return [(L, ('len',))]
            if args[0][0] in ('seq', 'map'):
                return [(L, K(len(args[0][1])))]
        if n == 'bool' and len(args) == 1:
            return [(L2, K(b)) for L2, b in self.truth(args[0], L)]
        if n in ('any', 'all') and len(args) == 1 and args[0][0] == 'seq':
            cur, out = [L], []
            for v in args[0][1]:
                nxt = []
                for L1 in cur:
                    for L2, b in self.truth(v, L1):
                        if b == (n == 'any'):
                            out.append((L2, K(b)))
                        else:
                            nxt.append(L2)
                cur = nxt
            return out + [(x, K(n == 'all')) for x in cur]
        if n in ('ord', 'chr') and args[0][0] == 'k':
            return [(L, K(ord(args[0][1]) if n == 'ord' else chr(args[0][1])))]
        raise Unknown('call of ' + n)

    def method(self, o, n, args, kw, L, m):
        if o[0] == 're':
            pat, fl = o[1]
            if n in ('match', 'search', 'fullmatch') and len(args) == 1:
                mode = {'fullmatch': 'full'}.get(n, n)
                R = self.regex(pat, fl, mode)
                a = args[0]
                if a[0] == 's':
                    C = self.pre(a[1], R)
                    mv = ('m', (pat, fl), mode) if a == INPUT else ('fn', None)
                elif a[0] == 'grp':
                    C, mv = self.group(a, R), ('fn', None)
                elif a[0] == 'k':
                    raise Unknown('match on a constant')
                else:
                    raise Unknown('match')
                return [(x, mv if b else K(None)) for x, b in self.split(L, C)]
            if n == 'sub' and len(args) == 2 and args[0][0] == 'k' and args[1][0] == 's':
                return [(L, ('s', args[1][1] + (('sub', pat, fl, args[0][1]),)))]
            if n == 'pattern':
                raise Unknown('pattern')
            raise Unknown('regular expression method ' + n)
        if o[0] == 'm':
            cnt = parse(o[1][0], o[1][1]).state.groups - 1
            if n == 'group' and all(a[0] == 'k' and isinstance(a[1], int) for a in args):
                if len(args) == 1:
                    return [(L, ('grp', o[1], o[2], args[0][1]) if args[0][1] else self.whole(o))]
                if not args:
                    return [(L, self.whole(o))]
                return [(L, ('seq', tuple(('grp', o[1], o[2], a[1]) for a in args)))]
            if n == 'groups' and not args:
                return [(L, ('seq', tuple(('grp', o[1], o[2], i) for i in range(1, cnt + 1))))]
            raise Unknown('match method ' + n)
        if o[0] == 's':
            return self.strmethod(o, n, args, kw, L)
        if o == ('bi', 'str') and n == 'maketrans' and len(args) == 1 and args[0][0] == 'map':
            return [(L, args[0])]
        if o == ('bi', 'dict') and n == 'fromkeys' and len(args) == 2:
            return [(L, ('map', tuple((k, args[1]) for k in self.items(args[0]))))]
        if o == ('bi', 'str') and args and args[0][0] == 's':
            return self.strmethod(args[0], n, args[1:], kw, L)
        if o[0] == 'map':
            if n in ('items', 'keys', 'values') and not args:
                return [(L, ('seq', tuple(('seq', kv) if n == 'items' else kv[0] if n == 'keys' else kv[1] for kv in o[1])))]
            if n == 'get' and args and args[0][0] == 'k':
                hit = [v for k, v in o[1] if k == args[0]]
                return [(L, hit[-1] if hit else args[1] if len(args) > 1 else K(None))]
        if o[0] == 'k' and isinstance(o[1], str):
            if n == 'join' and len(args) == 1 and args[0][0] == 'seq':
                parts = []
                for i, x in enumerate(args[0][1]):
                    if i and o[1]:
                        parts.append(o)
                    parts.append(x)
                return [(L, self.glue(parts))]
            if n == 'split' and all(a[0] == 'k' for a in args):
                return [(L, ('seq', tuple(K(x) for x in o[1].split(*[a[1] for a in args]))))]
            if n == 'format' and not kw:
                parts = re.split(r'(\{\d*\})', o[1])
                out, i = [], 0
                for p in parts:
                    if re.fullmatch(r'\{\d*\}', p):
                        j = int(p[1:-1]) if p != '{}' else i
                        i += 1
                        out.append(args[j])
                    elif '{' in p or '}' in p:
                        raise Unknown('format')
                    elif p:
                        out.append(K(p))
                return [(L, self.glue(out))]
        raise Unknown('method ' + n)

    def regex(self, pat, fl, mode):
        k = ('R', pat, fl, mode)
        if k not in self.memo:
            self.memo[k] = regex(self.ab, pat, fl, mode)
        return self.memo[k]

    def strmethod(self, o, n, args, kw, L):
        ab = self.ab
        if n == 'replace' and len(args) == 2 and all(a[0] == 'k' for a in args):
            return [(L, ('s', o[1] + (('rep', args[0][1], args[1][1]),)))]
        if n in ('startswith', 'endswith') and len(args) == 1:
            ws = [a[1] for a in (self.items(args[0]) if args[0][0] == 'seq' else [args[0]])]
            C = nothing(ab)
            for w in ws:
                C = C | (regex(ab, re.escape(w) + '.*', re.S) if n == 'startswith' else regex(ab, '.*' + re.escape(w), re.S))
            return [(x, K(b)) for x, b in self.split(L, self.pre(o[1], C))]
        if n in PREDS and not args:
            c = cs_pred(n)
            C = ~containing(ab, cs_not(c))
            if n not in ('isascii', 'isprintable'):
                C = C & lengths(ab, lambda k: k > 0)
            return [(x, K(b)) for x, b in self.split(L, self.pre(o[1], C))]
        if n == 'isidentifier' and not args:
            C = (~containing(ab, cs_not(cs_pred(n)))) & regex_first(ab, cs_and(start_chars(), cs_pred(n)))
            return [(x, K(b)) for x, b in self.split(L, self.pre(o[1], C))]
        if n == '__contains__' and args[0][0] == 'k':
            return self.cmp(args[0], ast.In(), o, L)
        if n == 'translate' and len(args) == 1 and args[0][0] == 'map':
            mp = []
            for k, v in args[0][1]:
                k = chr(k[1]) if isinstance(k[1], int) else k[1]
                mp.append((k, '' if v[1] is None else v[1]))
            return [(L, ('s', o[1] + (('hom', tuple(mp)),)))]
        if n == 'format':
            raise Unknown('format')
        raise Unknown('string method ' + n)

    # -- comprehensions ----------------------------------------------------------------------------------------
    def e_ListComp(self, e, env, L, m):
        return self.compre(e, 'list', env, L, m)

    e_GeneratorExp = e_SetComp = e_ListComp

    def e_DictComp(self, e, env, L, m):
        g, = e.generators
        out = []
        for L1, it in self.ev(g.iter, env, L, m):
            kv = []
            for x in self.items(it):
                e2 = dict(env)
                self.assign(g.target, x, e2)
                r = self.evs([e.key, e.value], e2, L1, m)
                if len(r) != 1 or g.ifs:
                    raise Unknown('comprehension')
                kv.append(tuple(r[0][1]))
            out.append((L1, ('map', tuple(kv))))
        return out

    def compre(self, e, how, env, L, m):
        if len(e.generators) != 1:
            raise Unknown('comprehension')
        g = e.generators[0]
        out = []
        for L1, it in self.ev(g.iter, env, L, m):
            if it == INPUT and isinstance(g.target, ast.Name):
                v = g.target.id
                p = ANY
                for c in g.ifs:
                    p = cs_and(p, self.charpred(c, v, env, m))
                if how == 'any':
                    C = containing(self.ab, cs_and(p, self.charpred(e.elt, v, env, m)))
                elif how == 'all':
                    C = ~containing(self.ab, cs_and(p, cs_not(self.charpred(e.elt, v, env, m))))
                elif how in ('list', 'tuple', 'set', 'bool', 'len', 'sorted'):
                    C = containing(self.ab, p)
                    if how == 'len':
                        raise Unknown('number of characters')
                else:
                    raise Unknown('comprehension')
                out += [(x, ('lang', C) if how not in ('any', 'all', 'bool') else K(b)) for x, b in self.split(L1, C)]
                continue
            cur = [(L1, ())]
            for x in self.items(it):
                nxt = []
                for L2, acc in cur:
                    e2 = dict(env)
                    self.assign(g.target, x, e2)
                    conds = [(L2, True)]
                    for c in g.ifs:
                        conds = [(L4, b and t) for L3, t in conds for L4, b in (self.cond(c, e2, L3, m) if t else [(L3, False)])]
                    for L3, t in conds:
                        if not t:
                            nxt.append((L3, acc))
                            continue
                        if how in ('any', 'all'):
                            for L4, b in self.cond(e.elt, e2, L3, m):
                                if b == (how == 'any'):
                                    out.append((L4, K(b)))
                                else:
                                    nxt.append((L4, acc))
                        else:
                            for L4, v in self.ev(e.elt, e2, L3, m):
                                nxt.append((L4, acc + (v,)))
                cur = nxt
                if len(cur) > MAX_PATHS:
                    raise Unknown('paths')
            for L2, acc in cur:
                out.append((L2, K(how == 'all') if how in ('any', 'all') else ('seq', acc) if how != 'len' else K(len(acc))))
        return out

    def joincomp(self, e, env, L, m):
        """sep.join(F(c) for c in input)"""
        c = e.args[0]
        out = []
        for L1, sep in self.ev(e.func.value, env, L, m):
            g = c.generators[0]
            for L2, it in self.ev(g.iter, env, L1, m):
                if it[0] != 's':
                    for L3, v in self.compre(c, 'list', env, L2, m):
                        out += self.method(sep, 'join', [v], {}, L3, m)
                    continue
                if sep != K('') or len(c.generators) != 1 or not isinstance(g.target, ast.Name):
                    raise Unknown('join')
                v = g.target.id
                keep = ANY
                for x in g.ifs:
                    keep = cs_and(keep, self.charpred(x, v, env, m))
                steps = it[1]
                if keep != ANY:
                    steps += (('drop', cs_not(keep)),)
                out.append((L2, ('s', steps + self.charmap(c.elt, v, env, m))))
        return out

    def charmap(self, e, v, env, m):
        if isinstance(e, ast.Name) and e.id == v:
            return ()
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and len(e.args) == 2 \
                and all(isinstance(a, ast.Name) and a.id == v for a in e.args):
            (_, mp), = self.ev(e.func.value, env, self.all, m)
            if mp[0] == 'map' and all(k[0] == x[0] == 'k' for k, x in mp[1]):
                return (('hom', tuple((k[1], x[1]) for k, x in mp[1])),)
        if isinstance(e, ast.IfExp):
            p = self.charpred(e.test, v, env, m)
            if sum(hi - lo + 1 for lo, hi in p) <= 8:
                mp = []
                for lo, hi in p:
                    for c in range(lo, hi + 1):
                        (_, x), = self.ev(e.body, dict(env, **{v: K(chr(c))}), self.all, m)
                        mp.append((chr(c), x[1]))
                if isinstance(e.orelse, ast.Name) and e.orelse.id == v:
                    return (('hom', tuple(mp)),)
        raise Unknown('character mapping')

    def charpred(self, e, v, env, m):
        """characters c (variable v) for which the expression is true"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return cs_not(self.charpred(e.operand, v, env, m))
        if isinstance(e, ast.BoolOp):
            ps = [self.charpred(x, v, env, m) for x in e.values]
            r = ps[0]
            for p in ps[1:]:
                r = cs_and(r, p) if isinstance(e.op, ast.And) else cs_or(r, p)
            return r
        if isinstance(e, ast.Compare):
            vals = [e.left] + list(e.comparators)
            r = ANY
            for a, op, b in zip(vals, e.ops, vals[1:]):
                r = cs_and(r, self.charcmp(a, op, b, v, env, m))
            return r
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == v:
            if e.func.attr in PREDS and not e.args:
                return cs_pred(e.func.attr)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and len(e.args) == 1 and isinstance(e.args[0], ast.Name) and e.args[0].id == v:
            (_, o), = self.ev(e.func.value, env, self.all, m)
            if o[0] == 're' and e.func.attr in ('match', 'fullmatch', 'search'):
                R = self.regex(o[1][0], o[1][1], {'fullmatch': 'full'}.get(e.func.attr, e.func.attr))
                return cs_or(*[cs for i, cs in enumerate(self.ab.sets) if R.run(R.start, [i]) in R.acc] or [()])
        raise Unknown('condition on a character')

    def charcmp(self, a, op, b, v, env, m):
        def isc(x):
            return isinstance(x, ast.Name) and x.id == v

        def iso(x):
            return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'ord' and len(x.args) == 1 and isc(x.args[0])
        if isc(b) or iso(b):
            if isinstance(op, (ast.In, ast.NotIn)):
                raise Unknown('condition on a character')
            a, b = b, a
            op = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}.get(type(op), type(op))()
        if not (isc(a) or iso(a)):
            raise Unknown('condition on a character')
        (_, c), = self.ev(b, env, self.all, m)
        if isinstance(op, (ast.In, ast.NotIn)):
            xs = [x[1] for x in self.items(c)]
            s = cs_norm([(x if isinstance(x, int) else ord(x),) * 2 for x in xs])
            return s if isinstance(op, ast.In) else cs_not(s)
        if c[0] != 'k':
            raise Unknown('condition on a character')
        k = c[1] if isinstance(c[1], int) else ord(c[1])
        s = {ast.Eq: ((k, k),), ast.NotEq: cs_not(((k, k),)), ast.Lt: cs_norm([(0, k - 1)]), ast.LtE: ((0, k),),
             ast.Gt: cs_norm([(k + 1, MAXC)]), ast.GtE: ((k, MAXC),)}.get(type(op))
        if s is None:
            raise Unknown('condition on a character')
        return s


def regex_first(ab, chars):
    s = ab.of(chars)
    return DFA(ab, [[1 if x in s else 2 for x in range(ab.n)], [1] * ab.n, [2] * ab.n], 0, {1})
