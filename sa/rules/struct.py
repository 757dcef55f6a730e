"""Structural effects of a path: what it adds to and removes from the four tables of the graph.

tokens: (table, sign, a, b, site)   table 'E' edge (a,b); 'N' b listed under neighbors[a]; 'I' b listed under
in_neighbors[a]; 'nodes'/'neighbors'/'in_neighbors' key a (b None).  sign '+', '-', '-all' (every occurrence)."""
from .base import *

TABLES = ('nodes', 'neighbors', 'in_neighbors', 'edge_attr')


def table(base, owner=SELF):
    if base[0] == 'f' and base[1] == owner and base[2] in TABLES + ('out_neighbors',):
        return 'neighbors' if base[2] == 'out_neighbors' else base[2]
    return None


class Eq:
    """equalities known on a path"""

    def __init__(self, signs=(), more=()):
        self.p = {}
        for s in (signs, more):
            for d, v in (s.items() if isinstance(s, dict) else s):
                if v is not None and len(v) == 1 and 0 in v:
                    c, m = lin_parts(d)
                    if c == 0 and len(m) == 2 and sorted(m.values()) == [-1, 1]:
                        a, b = m
                        self.p[self(a)] = self(b)

    def __call__(self, t):
        n = 0
        while t in self.p and n < 50:
            t = self.p[t]
            n += 1
        if t[0] == 't':
            return ('t',) + tuple(self(x) for x in t[1:])
        if t[0] == 'i' and len(t) == 3 and t[1][0] == 't' and t[2][0] == 'c' and isinstance(t[2][2], int) \
                and 0 <= t[2][2] < len(t[1]) - 1:
            return self(t[1][1 + t[2][2]])
        return t


def pair(k):
    if k[0] == 't' and len(k) == 3:
        return k[1], k[2]
    return ('i', k, C(0)), ('i', k, C(1))


class Unknown(Exception):
    pass


def tokens(events, st, owner=SELF, lists=None):
    """structural tokens of the events of one level; loops as ('loop', event)"""
    lists = {} if lists is None else lists
    out = []

    def where(base):
        """which list of the graph an object is"""
        if base[0] == 'o':
            return lists.get(base)
        if base[0] == 'i' and len(base) >= 3:
            t = table(base[1], owner)
            if t in ('neighbors', 'in_neighbors'):
                return t, base[2]
        return None
    for e in events:
        k = e[0]
        if k in ('loop', 'loopx'):
            out.append(('loop', e))
            continue
        if k == 'set':
            t = table(e[2], owner)
            if t == 'edge_attr':
                a, b = pair(e[3])
                out.append(('E', '+', a, b, e[1]))
            elif t == 'nodes':
                out.append((t, '+', e[3], None, e[1]))
            elif t in ('neighbors', 'in_neighbors'):
                v = e[4]
                if v[0] != 'o':
                    raise Unknown('list stored in %s' % t)
                r = filtered(st, v, e[2], e[3], owner)
                if r == 'new':
                    lists[v] = (t, e[3])
                    out.append((t, '+', e[3], None, e[1]))
                elif r is not None:
                    lists[v] = (t, e[3])
                    for x in r:
                        out.append(('N' if t == 'neighbors' else 'I', '-all', e[3], x, e[1]))
                else:
                    raise Unknown('list stored in %s' % t)
        elif k == 'del':
            t = table(e[2], owner)
            if t == 'edge_attr':
                a, b = pair(e[3])
                out.append(('E', '-', a, b, e[1]))
            elif t:
                out.append((t, '-', e[3], None, e[1]))
            elif where(e[2]):
                raise Unknown('deletion by position')
        elif k == 'mut':
            w = where(e[2])
            if w:
                n = 'N' if w[0] == 'neighbors' else 'I'
                if e[3] == 'append':
                    out.append((n, '+', w[1], e[4][0], e[1]))
                elif e[3] == 'insert':
                    out.append((n, '+', w[1], e[4][1], e[1]))
                elif e[3] == 'remove':
                    out.append((n, '-', w[1], e[4][0], e[1]))
                elif e[3] in ('sort', 'reverse'):
                    pass
                else:
                    raise Unknown(e[3])
            elif table(e[2], owner):
                if e[3] not in ('setdefault',):
                    raise Unknown(e[3])
        elif k == 'setf' and e[2] == owner and e[3] in TABLES:
            raise Unknown('table replaced')
    return out


def filtered(st, v, tbl, key, owner):
    """'new' for an empty list, [removed...] for the old list without some elements, None otherwise"""
    ob = st.objs.get(v[1])
    if ob is None or ob.kind != 'list':
        return None
    items = list(ob.items)
    # appended elements are reported by their own events
    while items and items[-1][0] == 'e':
        items.pop()
    if not items:
        return 'new'
    if len(items) != 1 or items[0][0] != 'rep':
        return None
    src = items[0][2]
    if src[0] != 'elems' or src[1][0] != 'i' or src[1][2] != key or table(src[1][1], owner) != table(tbl, owner):
        return None
    gone = []
    for alt in items[0][3]:
        segs, signs = alt[0], alt[2] if len(alt) > 2 else ()
        if len(segs) == 1 and segs[0][0] == 'e' and segs[0][1][0] == 'el':
            continue
        if segs:
            return None
        eq = [d for d, s in signs if isinstance(s, frozenset) and s == frozenset((0,))]
        if len(eq) != 1:
            return None
        c, m = lin_parts(eq[0])
        els = [x for x in m if x[0] == 'el' and x[2] == src]
        oth = [x for x in m if x not in els]
        if c != 0 or len(els) != 1 or len(oth) != 1:
            return None
        gone.append(oth[0])
    return gone or None
