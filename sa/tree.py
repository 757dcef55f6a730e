"""Interpretation of an extracted effect tree over a finite membership model.

The tree of events that the abstract interpreter extracts from a method (its updates of local lists and dictionaries, its branch
conditions, its loops over fields of self) is evaluated for a given assignment of finite, uninterpreted values to the fields.
Names and values are uninterpreted symbols: equality is the only thing known about them; anything else asked of them is Undecided.
"""
from .terms import *


class Undecided(Exception):
    pass


class Sym:
    """an uninterpreted value"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '<%s>' % self.n


class Rec:
    """an object with fields"""

    def __init__(self, what, **f):
        self.what = what
        self.f = f

    def __repr__(self):
        return '<%s %s>' % (self.what, self.f.get('name'))


class Text(tuple):
    """text: literal strings and marks (tag, value)"""
    __slots__ = ()

    def __add__(self, o):
        return Text(tuple.__add__(self, o))


class Frozen(list):
    pass


UNDEF = Sym('undef')


def text(v):
    if isinstance(v, Text):
        return v
    if isinstance(v, str):
        return Text((v,)) if v else Text()
    raise Undecided('not text')


def as_str(v):
    if isinstance(v, (str, Text)):
        return v
    if isinstance(v, Sym):
        return Text((('S', v),))
    if v is None or isinstance(v, (bool, int)):
        return str(v)
    if isinstance(v, tuple):
        return Text((('S', v),))
    raise Undecided('str()')


def cat(parts):
    out = Text()
    for p in parts:
        out = out + text(p)
    if all(isinstance(x, str) for x in out):
        return ''.join(out)
    return out


def same(a, b):
    """equality of two values"""
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a is b
    if isinstance(a, Text) or isinstance(b, Text):
        if text_key(a) == text_key(b):
            return True
        raise Undecided('text equality')
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (Rec, list, dict)) or isinstance(b, (Rec, list, dict)):
        if a is b:
            return True
        raise Undecided('object equality')
    return type(a) is type(b) and a == b or isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a == b


def text_key(v):
    if isinstance(v, str):
        return (v,)
    if isinstance(v, Text):
        out = []
        for p in v:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        return tuple(out)
    return None


def truth(v):
    if v is UNDEF:
        raise Undecided('unbound')
    if v is None or isinstance(v, (bool, int, str, list, dict)):
        return bool(v)
    if isinstance(v, Text):
        if any(isinstance(p, str) and p for p in v) or any(not isinstance(p, str) for p in v):
            return True
        return bool(v)
    if isinstance(v, tuple):
        return bool(v)
    if isinstance(v, Rec):
        return True
    raise Undecided('truth of a value')


class State:
    __slots__ = ('store', 'env')

    def __init__(self, store=None, env=None):
        self.store = store or {}
        self.env = env or {}

    def fork(self):
        return State({k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v)
                      for k, v in self.store.items()}, dict(self.env))


class Machine:
    """params: {name: value}; ops: {callee name: function(recv, args, kwargs) -> value}; it: the interpreter (for module literals)"""

    def __init__(self, it, me, params, ops, st=None, budget=60000):
        self.it = it
        self.me = me
        self.params = params
        self.ops = ops
        self.fin = st
        self.budget = budget
        self.opcalls = {}

    # ---- terms -----------------------------------------------------------------------------
    def ev(self, t, S):
        self.budget -= 1
        if self.budget < 0:
            raise Undecided('budget')
        h = t[0]
        m = getattr(self, 'v_' + h, None)
        if m is None:
            raise Undecided('term ' + str(h))
        return m(t, S)

    def v_c(self, t, S):
        return t[2]

    def v_s(self, t, S):
        if t[1] == 'self':
            return self.me
        if t[1] in self.params:
            return self.params[t[1]]
        raise Undecided('parameter ' + str(t[1]))

    def v_f(self, t, S):
        b = self.ev(t[1], S)
        if isinstance(b, Rec) and t[2] in b.f:
            return b.f[t[2]]
        raise Undecided('field ' + str(t[2]))

    def v_i(self, t, S):
        b, k = self.ev(t[1], S), self.ev(t[2], S)
        return self.index(b, k)

    def index(self, b, k):
        if isinstance(b, dict):
            for x, v in b.items():
                if same(x, k):
                    return v
            raise Undecided('missing key')
        if isinstance(b, (list, tuple)) and not isinstance(b, Text) and isinstance(k, int):
            if -len(b) <= k < len(b):
                return b[k]
        raise Undecided('index')

    def v_t(self, t, S):
        return tuple(self.ev(x, S) for x in t[1:])

    def v_lin(self, t, S):
        r = t[1]
        for x, c in t[2]:
            v = self.ev(x, S)
            if not isinstance(v, (int, bool)):
                raise Undecided('arithmetic')
            r += c * int(v)
        return r

    def v_el(self, t, S):
        k = ('el', t[1])
        if k not in S.env:
            raise Undecided('element')
        s = self.seq(t[2], S)
        i = S.env[k]
        if i >= len(s):
            raise Undecided('element index')
        return s[i]

    def v_phi(self, t, S):
        k = ('v', t[1], t[2])
        if k not in S.env:
            raise Undecided('variable')
        v = S.env[k]
        if v is UNDEF:
            raise Undecided('unbound')
        return v

    v_mu = v_phi

    def v_undef(self, t, S):
        return UNDEF

    def v_o(self, t, S):
        if t[1] in S.store:
            return S.store[t[1]]
        ob = self.fin.objs.get(t[1]) if self.fin is not None else None
        if ob is not None and ob.kind in ('list', 'dict', 'set'):
            return self.segs(ob.items, S, ob.kind)
        raise Undecided('object')

    def v_cat(self, t, S):
        return cat([self.ev(x, S) for x in t[1:]])

    def v_g(self, t, S):
        lit = self.it.module_literal(t)
        if lit is None:
            raise Undecided('global')
        if lit[0] == 'dict':
            return {self.ev(k, S): self.ev(v, S) for k, v in lit[1]}
        return [self.ev(x, S) for x in lit[1]]

    def v_b(self, t, S):
        return self.atom(t[1], S) == t[2]

    def v_pf(self, t, S):
        f = t[1]
        if f == 'str' and len(t) == 3:
            return as_str(self.ev(t[2], S))
        if f == 'len':
            v = self.coll(t[2], S)
            return len(v)
        if f == 'joinstr':
            raise Undecided('join')
        if f == 'bool':
            return truth(self.ev(t[2], S))
        if f in ('str.strip', 'str.rstrip', 'str.lstrip', 'strslice', 'str.replace'):
            v = self.ev(t[2], S)
            return self.strop(f, v, [self.ev(x, S) for x in t[3:]])
        if f in ('index', 'count') and len(t) == 4:
            s, x = self.coll(t[2], S), self.ev(t[3], S)
            hits = [i for i, y in enumerate(s) if same(x, y)] if isinstance(s, (list, tuple)) else []
            if f == 'count':
                return len(hits)
            if hits:
                return hits[0]
        if f == 'min' or f == 'max':
            vs = [self.ev(x, S) for x in t[2:]]
            if vs and all(isinstance(v, int) for v in vs):
                return min(vs) if f == 'min' else max(vs)
        raise Undecided('function ' + str(f))

    def strop(self, f, v, args):
        """trimming of text, where it touches literal text only"""
        if isinstance(v, str):
            if f == 'strslice':
                return v[slice(*args)]
            return getattr(v, f[4:])(*args)
        v = [p for p in text_key(v)]
        if f == 'strslice':
            lo, hi, step = args
            if step not in (None, 1) or lo not in (None, 0) or not isinstance(hi, int) or hi >= 0:
                raise Undecided('slice of text')
            if isinstance(v[-1], str) and len(v[-1]) >= -hi:
                v[-1] = v[-1][:hi]
                return Text(v)
            raise Undecided('slice of text')
        if f in ('str.strip', 'str.rstrip', 'str.lstrip'):
            if f != 'str.lstrip':
                if isinstance(v[-1], str):
                    x = v[-1].rstrip(*args)
                    if not x:
                        raise Undecided('strip of text')
                    v[-1] = x
                elif v[-1][0] not in ('Q', 'N', 'E'):
                    raise Undecided('strip of text')
            if f != 'str.rstrip':
                if isinstance(v[0], str):
                    x = v[0].lstrip(*args)
                    if not x:
                        raise Undecided('strip of text')
                    v[0] = x
                elif v[0][0] not in ('Q', 'N', 'E'):
                    raise Undecided('strip of text')
            return Text(v)
        raise Undecided(f)

    def v_r(self, t, S):
        # results of opaque calls: ('r','op',name,recv,args...,n) or ('r','ext',name,recv,...)
        if t in self.opcalls:
            ev = self.opcalls[t]
            return self.op(ev[3], self.ev(ev[2], S) if ev[2] != NONE else None, [self.ev(a, S) for a in ev[4]],
                           {k: self.ev(v, S) for k, v in ev[5]})
        if t[1] in ('op', 'ext') and len(t) > 3 and t[2] in self.ops:
            args = [x for x in t[4:] if isinstance(x, tuple) and x and x[0] not in ('L', 'n')]
            args = [x for x in args if isinstance(x[0], str)]
            return self.op(t[2], self.ev(t[3], S) if t[3] != NONE else None, [self.ev(a, S) for a in args], {})
        raise Undecided('result of a call')

    def op(self, name, recv, args, kw):
        f = self.ops.get(name)
        if f is None:
            raise Undecided('call of ' + str(name))
        return f(recv, args, kw)

    def v_sstar(self, t, S):
        s = self.seq(t[1], S)
        sep = self.ev(t[2], S) if len(t) > 2 and isinstance(t[2], tuple) else ''
        out = []
        for i, x in enumerate(s):
            if i and sep != '':
                out.append(sep)
            out.append(x)
        return cat(out)

    def v_srep(self, t, S):
        sep = self.ev(t[4], S) if len(t) > 4 else ''
        out = []
        for parts in self.rep(t, S):
            if out and sep != '' and parts:
                out.append(sep)
            out.extend(parts)
        return cat(out)

    def rep(self, t, S):
        """[values appended] for each iteration of ('rep'|'srep', lid, src, alts)"""
        n = len(self.seq(t[2], S))
        out = []
        for i in range(n):
            Z = S.fork()
            Z.env[('el', t[1])] = i
            chosen = None
            for parts, facts, signs in t[3]:
                if all(self.atom(a, Z) == b for a, b in facts) and all(self.sign(d, s, Z) for d, s in signs):
                    if chosen is not None:
                        raise Undecided('alternatives')
                    chosen = parts
            if chosen is None:
                raise Undecided('no alternative')
            vals = []
            for p in chosen:
                if p[0] in ('e', 'kv', 'star', 'rep', 'pre', 'unk'):
                    r = self.segs((p,), Z, 'list')
                    vals.extend(r)
                else:
                    vals.append(self.ev(p, Z))
            out.append(vals)
        return out

    def segs(self, items, S, kind):
        if kind == 'dict':
            d = {}
            for s in items:
                if s[0] == 'kv':
                    self.put(d, self.ev(s[1], S), self.ev(s[2], S))
                elif s[0] == 'star':
                    for k in self.seq(s[1], S):
                        self.put(d, k, Sym('?'))
                else:
                    raise Undecided('dictionary')
            return d
        out = []
        for s in items:
            if s[0] == 'e':
                out.append(self.ev(s[1], S))
            elif s[0] == 'kv':
                out.append(self.ev(s[1], S))
            elif s[0] == 'star':
                out.extend(self.seq(s[1], S))
            elif s[0] in ('rep', 'srep'):
                for vals in self.rep(s, S):
                    out.extend(vals)
            else:
                raise Undecided('segment')
        if kind == 'set':
            return Frozen(self.uniq(out))
        return out

    def uniq(self, xs):
        out = []
        for x in xs:
            if not any(same(x, y) for y in out):
                out.append(x)
        return out

    def put(self, d, k, v):
        for x in d:
            if same(x, k):
                d[x] = v
                return
        d[k] = v

    # ---- collections ---------------------------------------------------------------------------
    def coll(self, t, S):
        if t[0] in ('keys', 'elems', 'values', 'items', 'sorted', 'rev', 'slice', 'star', 'cat', 'one', 'gen', 'range', 'zip', 'enum',
                    'rep', 'set', 'copy') and not (t[0] == 'cat' and not isinstance(t[1][0], tuple)):
            return self.seq(t, S)
        v = self.ev(t, S)
        if isinstance(v, (list, dict, str)) or isinstance(v, tuple) and not isinstance(v, Text):
            return v
        raise Undecided('collection')

    def seq(self, t, S):
        """the list of elements of an iteration source"""
        h = t[0]
        if h in ('keys', 'elems', 'values', 'items'):
            v = self.coll(t[1], S)
            if isinstance(v, str):
                raise Undecided('characters')
            if isinstance(v, dict):
                if h == 'values':
                    return list(v.values())
                if h == 'items':
                    return list(v.items())
                return list(v)
            if h in ('values', 'items'):
                raise Undecided('values of a list')
            return list(v)
        if h == 'sorted':
            return self.seq(t[1], S)      # the order is not looked at
        if h == 'rev':
            return list(reversed(self.seq(t[1], S)))
        if h == 'slice':
            s = self.seq(t[1], S)
            k = [self.ev(x, S) for x in t[2:]]
            if not all(x is None or isinstance(x, int) for x in k):
                raise Undecided('slice')
            return s[slice(*k)]
        if h == 'one':
            return [self.ev(t[1], S)]
        if h == 'gen':
            return self.seq(t[1], S)
        if h == 'range':
            n = self.ev(t[1], S)
            if len(t) == 2 and isinstance(n, int):
                return list(range(n))
            raise Undecided('range')
        if h == 'rep':
            return [x for vals in self.rep(t, S) for x in vals]
        if h == 'cat' and len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple):
            return [x for s in t[1] for x in self.seq(s, S)]
        v = self.ev(t, S)
        if isinstance(v, (list, dict)) or isinstance(v, tuple) and not isinstance(v, Text):
            return list(v)
        raise Undecided('source')

    # ---- conditions ------------------------------------------------------------------------------
    def atom(self, a, S):
        h = a[0]
        if h == 'const':
            return a[1]
        if h == 'in':
            k, c = self.ev(a[1], S), self.coll(a[2], S)
            if isinstance(c, str):
                if isinstance(k, str):
                    return k in c
                raise Undecided('in text')
            return any(same(k, x) for x in c)
        if h == 'none':
            return self.ev(a[1], S) is None
        if h == 'true':
            return truth(self.ev(a[1], S))
        if h == 'empty':
            return len(self.coll(a[1], S)) == 0
        if h == 'nonempty':
            return len(self.coll(a[1], S)) != 0
        if h == 'sg':
            return self.sign(a[1], a[2], S)
        if h in ('any', 'all'):
            s = [truth(x) for x in self.coll(a[1], S)]
            return any(s) if h == 'any' else all(s)
        if h == 'inst':
            v = self.ev(a[1], S)
            if isinstance(v, str) and a[2] in ('str', C('str')):
                return True
            raise Undecided('isinstance')
        raise Undecided('condition ' + str(h))

    def sign(self, d, signs, S):
        c, m = lin_parts(d)
        if c == 0 and len(m) == 2 and sorted(m.values()) == [-1, 1]:
            (x, p), (y, q) = m.items()
            a, b = self.ev(x, S), self.ev(y, S)
            if not (isinstance(a, (int, bool)) and isinstance(b, (int, bool))):
                e = same(a, b)
                if e:
                    return 0 in signs
                if signs == frozenset((0,)):
                    return False
                if 1 in signs and -1 in signs:
                    return True
                raise Undecided('order')
        if c == 0 and len(m) == 1:
            x, k = next(iter(m.items()))
            v = self.ev(x, S)
            if isinstance(v, (int, bool)):
                v = int(v) * k
                return ((v > 0) - (v < 0)) in signs
            raise Undecided('sign')
        if len(m) == 1 and abs(next(iter(m.values()))) == 1:
            # variable compared with a constant number or truth value
            x, k = next(iter(m.items()))
            v = self.ev(x, S)
            if isinstance(v, (int, bool)):
                v = int(v) * k + c
                return ((v > 0) - (v < 0)) in signs
            if v is None or isinstance(v, (str, Text, tuple, list, dict)):
                if signs == frozenset((0,)):
                    return False
                if 1 in signs and -1 in signs and 0 not in signs:
                    return True
            raise Undecided('sign')
        v = self.v_lin(d, S) if d[0] == 'lin' else self.ev(d, S)
        if isinstance(v, (int, bool)):
            return ((v > 0) - (v < 0)) in signs
        raise Undecided('sign')

    # ---- events -----------------------------------------------------------------------------------
    def run(self, events, S):
        """generator of the states in which the events can end (choices that contradict a condition are dropped)"""
        return self.steps(tuple(events), 0, S)

    def steps(self, events, i, S):
        while i < len(events):
            self.budget -= 1
            if self.budget < 0:
                raise Undecided('budget')
            e = events[i]
            h = e[0]
            if h == 'test':
                if self.atom(e[2], S) != e[3]:
                    return
            elif h in ('loop', 'loopx'):
                n = len(self.seq(e[3], S))
                Z = S.fork()
                self.enter(e, Z)
                yield from self.loop(e, events, i, Z, 0, n)
                return
            else:
                self.effect(e, S)
            i += 1
        yield S

    def enter(self, e, S):
        vals = {}
        for name, (init, _) in e[5]:
            try:
                vals[name] = self.ev(init, S)
            except Undecided:
                vals[name] = UNDEF
        for k, v in vals.items():
            S.env[('v', e[2], k)] = v

    def loop(self, e, events, i, S, k, n):
        lid = e[2]
        if e[0] == 'loop' and k == n:
            S.env.pop(('el', lid), None)
            yield from self.steps(events, i + 1, S)
            return
        if k == n:
            return
        if e[0] == 'loopx':
            Z = S.fork()
            Z.env[('el', lid)] = k
            yield from self.steps(events, i + 1, Z)
        for alt in e[4]:
            if alt[4] is not None and alt[4][0] != 'continue':
                continue
            Z = S.fork()
            Z.env[('el', lid)] = k
            for Y in self.steps(tuple(alt[0]), 0, Z):
                new = {}
                for name, v in alt[3]:
                    try:
                        new[name] = self.ev(v, Y)
                    except Undecided:
                        new[name] = UNDEF
                for name, v in new.items():
                    Y.env[('v', lid, name)] = v
                yield from self.loop(e, events, i, Y, k + 1, n)

    def effect(self, e, S):
        h = e[0]
        if h in ('lit', 'litd'):
            oid = e[2][1]
            ob = self.fin.objs.get(oid) if self.fin is not None else None
            kind = ob.kind if ob is not None else self.it.okind.get(oid, 'list')
            if kind in ('list', 'set', 'dict'):
                S.store[oid] = self.segs(e[3], S, kind)
        elif h == 'cadd':
            b = self.v_o(e[2], S)
            if isinstance(b, dict) and e[3][0] == 'kv':
                self.put(b, self.ev(e[3][1], S), self.ev(e[3][2], S))
            elif isinstance(b, list):
                v = self.ev(e[3][1], S)
                if not isinstance(b, Frozen) or not any(same(v, x) for x in b):
                    b.append(v)
            else:
                raise Undecided('comprehension')
        elif h == 'mut':
            if e[2][0] != 'o':
                raise Undecided('update of something else')
            b = self.v_o(e[2], S)
            if e[2][1] not in S.store:
                S.store[e[2][1]] = b
            self.mutate(b, e[3], [self.ev(a, S) for a in e[4]], S)
        elif h == 'set':
            if e[2][0] != 'o':
                raise Undecided('update of something else')
            b = self.v_o(e[2], S)
            S.store[e[2][1]] = b
            k, v = self.ev(e[3], S), self.ev(e[4], S)
            if isinstance(b, dict):
                self.put(b, k, v)
            elif isinstance(b, list) and isinstance(k, int) and -len(b) <= k < len(b):
                b[k] = v
            else:
                raise Undecided('assignment')
        elif h == 'del':
            if e[2][0] != 'o':
                raise Undecided('update of something else')
            b = self.v_o(e[2], S)
            S.store[e[2][1]] = b
            k = self.ev(e[3], S)
            if isinstance(b, dict):
                for x in list(b):
                    if same(x, k):
                        del b[x]
            elif isinstance(b, list) and isinstance(k, int) and -len(b) <= k < len(b):
                del b[k]
            else:
                raise Undecided('deletion')
        elif h == 'setf':
            raise Undecided('assignment to a field')
        elif h in ('call', 'ecall'):
            self.opcalls[e[6]] = e

    def mutate(self, b, name, args, S):
        if isinstance(b, list):
            st = isinstance(b, Frozen)
            if name == 'append':
                b.append(args[0])
            elif name == 'add':
                if not any(same(args[0], x) for x in b):
                    b.append(args[0])
            elif name in ('extend', 'update'):
                for a in args:
                    if isinstance(a, dict):
                        a = list(a)
                    if not isinstance(a, (list, tuple)) or isinstance(a, Text):
                        raise Undecided('extend')
                    for x in a:
                        if not st or not any(same(x, y) for y in b):
                            b.append(x)
            elif name == 'insert' and isinstance(args[0], int):
                b.insert(args[0], args[1])
            elif name == 'pop':
                k = args[0] if args else -1
                if not b or not isinstance(k, int) or not -len(b) <= k < len(b):
                    raise Undecided('pop')
                b.pop(k)
            elif name in ('discard', 'remove'):
                for i, x in enumerate(b):
                    if same(x, args[0]):
                        del b[i]
                        break
                else:
                    if name == 'remove':
                        raise Undecided('remove')
            elif name == 'reverse':
                b.reverse()
            elif name == 'clear':
                b.clear()
            else:
                raise Undecided('method ' + name)
        elif isinstance(b, dict):
            if name == 'pop':
                for x in list(b):
                    if same(x, args[0]):
                        del b[x]
                        return
                if len(args) < 2:
                    raise Undecided('pop')
            elif name == 'setdefault':
                for x in b:
                    if same(x, args[0]):
                        return
                b[args[0]] = args[1] if len(args) > 1 else None
            elif name == 'update' and isinstance(args[0], dict):
                for k, v in args[0].items():
                    self.put(b, k, v)
            elif name == 'clear':
                b.clear()
            else:
                raise Undecided('method ' + name)
        else:
            raise Undecided('update')
