"""Arcs, steps along a cycle or a predecessor walk, and what they are measured by."""
from .leaf import *
from .base import *
from .c24 import attr, attr_set, inits

EA = ('f', SELF, 'edge_attr')
FLOW, CAP, COST = C('flow'), C('capacity'), C('cost')


def arc(key, name):
    return ('i', ('i', EA, key), C(name))


def edge_term(t):
    """(key, attribute) of a term that reads an edge attribute"""
    if t[0] == 'i' and t[1][0] == 'i' and t[1][1] == EA and t[2][0] == 'c':
        return t[1][2], t[2][2]
    return None


def edge_atoms(t):
    return [x for x in lin_parts(t)[1] if edge_term(x)]


def ends(key):
    if key[0] == 't' and len(key) == 3:
        return key[1], key[2]
    if key[0] in ('el', 'phi', 's'):
        return ('i', key, ZERO), ('i', key, ONE)
    return None


def edge_set(e):
    """(key, attribute, value) of a store into an edge attribute"""
    if e[0] != 'set':
        return None
    b = restrip(e[2])
    if b[0] == 'i' and b[1] == EA:
        return b[2], restrip(e[3]), restrip(e[4])
    return None


def is_len(t):
    return t[0] == 'pf' and t[1] == 'len'


def end_index(t):
    """the index of the last item"""
    if t == C(-1):
        return True
    c, m = lin_parts(t)
    return c == -1 and len(m) == 1 and is_len(list(m)[0]) and list(m.values())[0] == 1


def offset(a, b):
    c, m = lin_parts(lin_add(b, a, -1))
    return None if m else c


def mod(t):
    """x of x % len"""
    if t[0] == 'r' and len(t) > 4 and t[1] == 'op' and t[2] in ('%', 'Mod'):
        return t[3] if is_len(t[4]) else None
    if t[0] == 'pf' and t[1] in ('mod', '%', 'Mod') and len(t) > 3 and is_len(t[3]):
        return t[2]
    return None


def orient(x, y):
    """(+1 when y follows x, -1 when x follows y; what is walked along; index of the first of the two)"""
    if x[0] == 'i' and y[0] == 'i' and x[1] == y[1]:
        a, b = x[2], y[2]
        k = offset(a, b)
        if k == 1:
            return 1, x[1], a
        if k == -1:
            return -1, x[1], b
        if end_index(a) and b == ZERO:
            return 1, x[1], C(-1)
        if end_index(b) and a == ZERO:
            return -1, x[1], C(-1)
        if mod(b) is not None and offset(a, mod(b)) == 1:
            return 1, x[1], a
        if mod(a) is not None and offset(b, mod(a)) == 1:
            return -1, x[1], b
    if x[0] == 'i' and x[2] == y and x[1][0] in ('o', 's', 'phi', 'r'):
        return 1, x[1], y
    if y[0] == 'i' and y[2] == x and y[1][0] in ('o', 's', 'phi', 'r'):
        return -1, y[1], x
    return None


def rev(key):
    e = ends(key)
    return None if e is None else ('t', e[1], e[0])


def member(lf, key):
    """the arc is known to be (not) in the graph or in the tree"""
    for k, v in reversed(lf.facts):
        if k[0] == 'in' and k[1] == key and (k[2][0] == 'f' and k[2][2] == 'edge_attr' or k[2][0] in ('o', 'r', 's', 'elems', 'keys')):
            return v
    return None


def places(lf, key):
    """the tables in which this arc or its opposite was looked for"""
    both = (key, rev(key))
    return [k[2] for k, v in lf.facts if k[0] == 'in' and k[1] in both and v in (True, False)]


def whole_network(st, c, depth=0):
    """True: a table of the arcs of the whole network; False: one of something else; None: unknown"""
    if depth > 4 or not isinstance(c, tuple):
        return None
    if c[0] == 'f':
        return c[1] == SELF if c[2] == 'edge_attr' else None
    if c[0] in ('keys', 'elems') and len(c) > 1:
        return whole_network(st, c[1], depth + 1)
    if c[0] == 'r':
        for e in st.events():
            if e[0] == 'call' and e[6] == c:
                return e[2] == SELF if e[3] == 'get_edge_list' else None
        return None
    if c[0] == 'o' and c[1] in st.objs:
        items = st.objs[c[1]].items
        if items and len(items) == 1 and items[0][0] == 'star':
            return whole_network(st, items[0][1], depth + 1)
    return None


def index_range(lf, raw_inits, start):
    """first index and the last one, relative to the length, that the loop of this alternative goes through; None when unknown"""
    c, m = lin_parts(start)
    if len(m) != 1:
        return None
    v, k = list(m.items())[0]
    if k != 1:
        return None
    if v[0] == 'phi':
        init, backs = raw_inits.get(v, (None, ()))
        if init is None or init[0] != 'c' or not backs:
            return None
        ks = {offset(v, b) for b in backs}
        if len(ks) == 1 and None not in ks and 0 not in ks and ks != {1} and -1 not in ks:
            return 'stride', ks.pop()
        if ks != {1}:
            return None
        lo = init[2]
        hi = None
        for d, s in lf.signs.items():
            cc, mm = lin_parts(d)
            if len(mm) == 2 and v in mm and any(is_len(x) for x in mm):
                ln = [x for x in mm if is_len(x)][0]
                if abs(mm[v]) != 1 or mm[ln] != -mm[v]:
                    return None
                sg = {x * mm[ln] for x in s}
                cc *= mm[ln]
                if sg == {1}:
                    hi = cc             # v < len + cc
                elif sg == {0, 1}:
                    hi = cc + 1
        if hi is None:
            return None
        return lo + c, hi + c
    if v[0] == 'el' and v[2][0] == 'range':
        args = v[2][1:]
        lo = ZERO if len(args) == 1 else args[0]
        hi = args[0] if len(args) == 1 else args[1]
        if len(args) > 2 and args[2] != ONE:
            return ('stride', args[2][2]) if args[2][0] == 'c' and args[2][2] not in (0, -1) else None
        if lo[0] != 'c':
            return None
        hc, hm = lin_parts(hi)
        if len(hm) != 1 or not is_len(list(hm)[0]) or list(hm.values())[0] != 1:
            return None
        return lo[2] + c, hc + c
    return None


def whole(ranges, closing):
    """the steps from the given range of starts, and the closing step when made on its own, are all steps of the cycle, once each;
    otherwise a text"""
    n = 0
    lo, hi = ranges
    if lo == 'stride':
        return 'steps of %s' % hi
    if closing:
        if (lo, hi) == (0, -1):
            return True
    elif (lo, hi) in ((0, 0), (-1, -1)):
        return True
    if closing and (lo, hi) in ((0, 0), (-1, -1)):
        return 'the closing arc is taken twice'
    if not closing and (lo, hi) == (0, -1):
        return 'the closing arc is left out'
    return 'arcs %d to length%+d are taken%s' % (lo, hi - 1, ' and the closing one' if closing else '')


def opaque_amount(t):
    """terms whose value the analysis does not know about"""
    for a in lin_parts(t)[1]:
        if a[0] in ('r', 'mu', 'L', 'untr', 'unk'):
            return True
        if a[0] == 'pf' and a[1] not in ('min', 'max', 'abs'):
            return True
    return False
