"""Innermost alternatives of a path, with everything known on them."""
from .base import *
from .c18 import plain, diff_sign
from .c21 import strip, clear


class Leaf:
    __slots__ = ('events', 'facts', 'signs', 'out', 'loops', 'nested', 'site', 'before', 'phis', 'raw')

    def fact(self, pred):
        """value of the first fact whose stripped term satisfies pred"""
        for k, v in self.facts:
            if pred(k):
                return v
        return None

    def sign(self, a, b):
        return diff_sign(self.signs, a, b)


def restrip(t):
    """strip() through linear terms"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'lin':
        r = C(t[1])
        for k, v in t[2]:
            r = lin_add(r, lin_scale(restrip(k), v))
        return r
    t = plain(t)
    if t and t[0] in ('f', 'i') and len(t) > 3:
        t = t[:3]
    if t and t[0] == 'r' and len(t) > 2 and t[1] == 'ext' and t[2] in ('get_priority', 'peek', 'isEmpty'):
        t = t[:4 + (1 if t[2] == 'get_priority' or t[2] == 'peek' and len(t) > 4 and isinstance(t[4], tuple) and t[4] and
                       t[4][0] in ('s', 'el', 'r', 'phi', 'i', 'f', 'c', 't') else 0)]
    return tuple(restrip(x) if isinstance(x, tuple) else x for x in t)


def merged(signs):
    out = {}
    for k, v in signs:
        if v is None:
            continue
        d, s = lin_canon(restrip(k))
        if d is not None:
            out[d] = frozenset(x * s for x in v) & out.get(d, frozenset((-1, 0, 1)))
    return out


def leaves(st, o, once=False):
    """every innermost alternative of a finished path; alternatives that contain loops yield their direct events.
    once: a loop reached over several alternatives of the loop around it is entered for the first of them only"""
    seen = set() if once else None
    pf = list(st.facts.items())
    ps = list(st.signs.items())
    for x in level(st.events(), [], [], [], o, [], pf, ps, [], seen):
        yield x


def level(events, facts, signs, loops, out, before, pf, ps, phis, seen=None):
    direct = [e for e in events if e[0] not in ('loop', 'loopx')]
    lf = Leaf()
    if loops:
        # what held when the loop was left says nothing about an iteration
        pf = [(k, v) for k, v in pf if not about(k)]
        ps = [(k, v) for k, v in ps if not about(k)]
    lf.events = direct
    lf.facts = [(restrip(k), v) for k, v in pf + facts]
    lf.signs = merged(ps + signs)
    lf.out = out
    lf.loops = list(loops)
    lf.nested = len(direct) != len(events)
    lf.before = list(before)
    lf.phis = dict(phis)
    lf.raw = events
    yield lf
    done = []
    for e in events:
        if e[0] in ('loop', 'loopx'):
            if seen is not None:
                if id(e) in seen:
                    continue
                seen.add(id(e))
            # the iteration that left the loop says nothing about the others
            of = [(k, v) for k, v in facts if not of_loop(k, e[2])]
            os_ = [(k, v) for k, v in signs if not of_loop(k, e[2])]
            for a in e[4]:
                for x in level(a[0], of + list(a[1]), os_ + list(a[2]), loops + [e], a[4], before + done, pf, ps,
                               phis + [v for v in (a[3] or []) if v[1] != ('undef',)], seen):
                    yield x
        else:
            done.append(e)


def of_loop(t, lid):
    if not isinstance(t, tuple):
        return False
    if len(t) > 1 and t[0] in ('phi', 'mu', 'el', 'L') and t[1] == lid:
        return True
    return any(of_loop(x, lid) for x in t)


def about(t):
    """the term speaks of some loop iteration"""
    if not isinstance(t, tuple):
        return False
    if len(t) > 1 and t[0] in ('phi', 'mu', 'el', 'L') and isinstance(t[1], int):
        return True
    return any(about(x) for x in t)


class Seen:
    """a finished path with its terms rewritten"""
    __slots__ = ('_events', 'facts', 'signs', 'objs', 'store')

    def events(self):
        return self._events


def place_set(e):
    if e[0] == 'set':
        return restrip(('i', e[2], e[3])), restrip(e[4])
    if e[0] == 'setf':
        return restrip(('f', e[2], e[3])), restrip(e[4])
    return None


def stores(events, out):
    for e in events:
        if e[0] in ('loop', 'loopx'):
            for a in e[4]:
                stores(a[0], out)
        else:
            p = place_set(e)
            if p:
                out.append(p)
    return out


def unmirror(st, o):
    """a local variable that is kept equal to a stored value is read as that value: its initial value is what was stored last before
    the loop, and every iteration that changes one of them changes the other to the same"""
    sub = {}

    def scan(events, now):
        for e in events:
            if e[0] not in ('loop', 'loopx'):
                p = place_set(e)
                if p:
                    now = dict(now)
                    now[p[0]] = p[1]
                elif e[0] in ('del', 'mut'):
                    b = restrip(e[2])
                    now = {k: v for k, v in now.items() if b not in set(subterms(k))}
                continue
            lid = e[2]
            for var, (init, backs) in e[5]:
                phi = ('phi', lid, var)
                init = restrip(init)
                if init == ('undef',) or of_loop(init, lid):
                    continue
                for loc, v in now.items():
                    if v != init or of_loop(loc, lid):
                        continue
                    if all(follows(a, phi, loc) for a in e[4]) and any(x[0] == loc for a in e[4] for x in stores(a[0], [])):
                        sub[phi] = loc
            for a in e[4]:
                scan(a[0], now)
            gone = {x[0] for a in e[4] for x in stores(a[0], [])}
            now = {k: v for k, v in now.items() if k not in gone}
        return now
    evs = list(st.events())
    scan(evs, {})
    if not sub:
        return st, o
    z = Seen()
    z.objs, z.store = st.objs, st.store
    z._events = [replace(e, sub) for e in evs]
    z.facts = {replace(k, sub): v for k, v in st.facts.items()}
    z.signs = {replace(k, sub): v for k, v in st.signs.items()}
    return z, replace(o, sub) if isinstance(o, tuple) else o


def follows(alt, phi, loc):
    """one way through the loop keeps the variable and the stored value equal"""
    back = None
    for v in alt[3] or ():
        if v[0] == phi[2]:
            back = restrip(v[1])
    own = [v for p, v in stores(alt[0], []) if p == loc]
    if alt[4] and alt[4][0] in ('break', 'return', 'raise') and back is None:
        return not own
    if back is None or back == phi:
        return all(v == phi or v == loc for v in own)
    return bool(own) and own[-1] == back


def replace(t, sub):
    if isinstance(t, tuple):
        if t in sub:
            return sub[t]
        return tuple(replace(x, sub) for x in t)
    if isinstance(t, list):
        return [replace(x, sub) for x in t]
    if isinstance(t, dict):
        return {replace(k, sub): replace(v, sub) for k, v in t.items()}
    return t
