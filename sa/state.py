"""Abstract states: persistent maps with copy-on-write, so that forking is cheap."""
from .terms import *

DELETED = ('deleted',)


class Obj:
    """contents of an object allocated during the analysed call (immutable record)

    kind: 'list' 'dict' 'set' 'inst:<Class>' 'ext:<dotted>' 'clo' ...
    items (list/set/dict keys): segments
        ('e', v) / ('kv', k, v)      one known element
        ('star', src)                every element of an iteration source
        ('pre', lid)                 the contents at the head of generic iteration lid
        ('rep', lid, src, alts)      what the iterations of loop lid appended; alts = ((segs, facts), ...)
        ('unk', token)               anything
    """
    __slots__ = ('kind', 'items', 'extra', '_h')

    def __init__(self, kind, items=(), extra=None):
        self.kind = kind
        self.items = items
        self.extra = extra
        self._h = None

    def __eq__(self, o):
        return self is o or (self.kind == o.kind and self.items == o.items and self.extra == o.extra)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.kind, self.items))
        return self._h

    def with_items(self, items):
        return Obj(self.kind, tuple(items), self.extra)

    def __repr__(self):
        return 'Obj(%s,%r)' % (self.kind, self.items)


class Frame:
    __slots__ = ('uid', 'func', 'env', 'mod', 'cls', 'callpath')

    def __init__(self, uid, func, env, mod, cls, callpath):
        self.uid = uid
        self.func = func
        self.env = env
        self.mod = mod
        self.cls = cls
        self.callpath = callpath

    def with_env(self, env):
        return Frame(self.uid, self.func, env, self.mod, self.cls, self.callpath)


class St:
    __slots__ = ('frames', 'store', 'ver', 'facts', 'signs', 'objs', 'log', 'gens', 'wl')

    def __init__(self):
        self.frames = ()
        self.store = {}
        self.ver = {}
        self.facts = {}
        self.signs = {}
        self.objs = {}
        self.log = None          # (event, previous) chain
        self.gens = ()
        self.wl = {}             # (container, version) -> (previous version, key, present)

    def fork(self):
        s = St.__new__(St)
        s.frames = self.frames
        s.store = self.store
        s.ver = self.ver
        s.facts = self.facts
        s.signs = self.signs
        s.objs = self.objs
        s.log = self.log
        s.gens = self.gens
        s.wl = self.wl
        return s

    # -- environment
    def top(self):
        return self.frames[-1]

    def setvar(self, name, v):
        f = self.frames[-1]
        e = dict(f.env)
        e[name] = v
        self.frames = self.frames[:-1] + (f.with_env(e),)

    def delvar(self, name):
        f = self.frames[-1]
        e = dict(f.env)
        e.pop(name, None)
        self.frames = self.frames[:-1] + (f.with_env(e),)

    def setvar_in(self, uid, name, v):
        fr = list(self.frames)
        for i in range(len(fr) - 1, -1, -1):
            if fr[i].uid == uid:
                e = dict(fr[i].env)
                e[name] = v
                fr[i] = fr[i].with_env(e)
                self.frames = tuple(fr)
                return True
        return False

    def frame_of(self, uid):
        for f in reversed(self.frames):
            if f.uid == uid:
                return f
        return None

    # -- maps
    def put(self, loc, v):
        self.store = dict(self.store)
        self.store[loc] = v

    def drop(self, locs):
        self.store = {k: v for k, v in self.store.items() if k not in locs}

    def setver(self, sig, tok):
        self.ver = dict(self.ver)
        self.ver[sig] = tok

    def setfact(self, atom, val):
        self.facts = dict(self.facts)
        self.facts[atom] = val

    def setsign(self, d, s):
        self.signs = dict(self.signs)
        self.signs[d] = s

    def setobj(self, oid, o):
        self.objs = dict(self.objs)
        self.objs[oid] = o

    def setwl(self, k, v):
        self.wl = dict(self.wl)
        self.wl[k] = v

    def emit(self, ev):
        self.log = (ev, self.log)

    def events(self, upto=None):
        out = []
        l = self.log
        while l is not None and l is not upto:
            out.append(l[0])
            l = l[1]
        out.reverse()
        return out

    def same_but_facts(self, o):
        return (self.log is o.log or self.log == o.log) and _frames_eq(self.frames, o.frames) and \
            (self.store is o.store or self.store == o.store) and \
            (self.ver is o.ver or self.ver == o.ver) and \
            (self.objs is o.objs or self.objs == o.objs) and \
            (self.signs is o.signs or _options(self.signs) == _options(o.signs))


_optkey = {}


def _options(signs):
    """which string a parameter is known to equal: kept apart, since later tests of the same option depend on it"""
    out = []
    for d, v in signs.items():
        if len(v) == 1 and 0 in v:
            r = _optkey.get(d)
            if r is None:
                _, m = lin_parts(d)
                h = sorted(k[0] if k[0] != 'c' else k[1] for k in m)
                r = _optkey[d] = h == ['s', 'str']
            if r:
                out.append(d)
    return frozenset(out)


def _frames_eq(a, b):
    if a is b:
        return True
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if x.uid != y.uid or x.func is not y.func:
            return False
        if x.env is not y.env and x.env != y.env:
            return False
    return True


def meet_facts(a, b):
    """weakens the facts of state a to those that hold in b as well"""
    if a.facts is not b.facts:
        a.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v or b.facts.get(k) == v}
    if a.signs is not b.signs:
        s = {}
        for k, v in a.signs.items():
            w = b.signs.get(k)
            if w is not None:
                u = v | w
                if len(u) < 3:
                    s[k] = u
        a.signs = s
    if a.wl is not b.wl:
        a.wl = {k: v for k, v in a.wl.items() if b.wl.get(k) == v}
