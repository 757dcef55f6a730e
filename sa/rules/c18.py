"""C18: Kruskal and disjoint sets only ever join different sets."""
from .base import *
from .struct import pair

ID = 'C18'
TECHNIQUE = 'path-condition and effect analysis of union, find, add and the Kruskal loop (abstract interpretation)'
RULE = ('union adds one arc, between the two roots, exactly on the paths on which they are known to differ, returns whether it '
        'did, sets the size of the new root to the sum of both sizes and, when optimising, hangs the set known not to be '
        'larger; find returns a node known to have no successor, reached by following successors, and re-hangs nodes only '
        'below it; add links every item to the one root and records their number; Kruskal takes all edges in the order of '
        'cost and selects an edge exactly when uniting its two ends succeeded')
EXPLANATION = ('Each operation is interpreted abstractly on an arbitrary disjoint set; add_edge, del_edge and add_node are '
               'kept as calls, and find is a pure function of the item in the analysis of union. The calls and stores of '
               'every path and loop iteration are compared with the facts known on it.')
MINIMUM = {'paths_checked': 6}
SIZES = ('f', SELF, 'sizes')
NB = ('f', SELF, 'neighbors')
EDIT = ('add_edge', 'del_edge', 'add_node', 'del_node')


def diff_sign(signs, a, b):
    """possible signs of a - b"""
    if a == b:
        return {0}
    d, s = lin_canon(lin_add(a, b, -1))
    if d is None:
        return {s}
    v = signs.get(d) if isinstance(signs, dict) else dict(signs).get(d)
    if v is None:
        return {-1, 0, 1}
    return {x * s for x in v}


def plain(t):
    """without version marks"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'lin':
        r = C(t[1])
        for k, v in t[2]:
            r = lin_add(r, lin_scale(plain(k), v))
        return r
    if t[0] in ('f', 'i') and len(t) > 3:
        return (t[0], plain(t[1]), plain(t[2]))
    return tuple(plain(x) if isinstance(x, tuple) else x for x in t)


def plain_signs(signs):
    out = {}
    for k, v in (signs.items() if isinstance(signs, dict) else signs):
        d, s = lin_canon(plain(k))
        if d is not None and v is not None:
            out[d] = frozenset(x * s for x in v) & out.get(d, frozenset((-1, 0, 1)))
    return out


def start(prog, res, cls, meth, opq, keep, **kw):
    r = explore(prog, cls, meth, kw.pop('g', 'digraph'), res=res, sink=False, keep=lambda ev: ev[0] in keep, opaque=opq,
                tracked=None, untracked=frozenset(), merge=False, **kw)
    if r is None:
        raise AnalysisBroken('%s.%s' % (cls, meth))
    fm = prog.cls(cls).lookup(meth)
    return r[0], r[1], (fm.module.path, fm.node.lineno, fm.qual)


def union(prog, res):
    def pure(it, st, recv, args, kw, ret):
        t = ('pf', 'root') + tuple(args)
        it.rkind[t] = 'name'
        return [(st, t)]
    opq = composed(EDIT)
    opq['find'] = pure
    it, outs, site0 = start(prog, res, 'DisjointSet', 'union', opq, ('call', 'set', 'del', 'mut', 'setf'))
    R = [('pf', 'root', ('s', p)) for p in ('i', 'j')]
    for st, o in outs:
        if o[0] != 'return':
            continue
        res.count('paths_checked')
        ev = list(walk(st.events()))
        calls = [e for e in ev if e[0] == 'call' and e[3] in EDIT]
        direct = [e for e in ev if e[0] in ('set', 'del', 'mut', 'setf') and root(e[2]) == SELF and
                  any(f in norm(e[2]) for f in ('neighbors', 'edge_attr', 'nodes'))]
        if direct:
            res.note('union changes the graph tables itself')
            res.count('paths_unknown')
            continue
        sz = [e for e in ev if e[0] == 'set' and e[2] == SIZES]
        rel = diff_sign(st.signs, R[0], R[1])
        adds = [e for e in calls if e[3] == 'add_edge']
        other = [e for e in calls if e[3] != 'add_edge']
        if other:
            res.find('union-edit', other[0][1], other[0][3], 'union calls %s' % other[0][3])
        if rel == {0}:
            if adds or sz:
                res.find('same-root', (adds or sz)[0][1], 'linked', 'union changes the sets although both items have the same root')
            if o[1] != FALSE and o[1] != NONE and o[1] != ZERO:
                res.find('result', site0, 'same', 'union returns %s although both items are in one set already' % norm(o[1]))
            continue
        if not adds:
            if 0 in rel and o[1] in (FALSE, NONE):
                res.find('not-linked', site0, 'roots', 'union can decline although the roots are not known to be equal')
            else:
                res.find('not-linked', site0, 'different', 'union does not link two different roots')
            continue
        if 0 in rel:
            res.find('same-root', adds[0][1], 'unknown', 'union links the two sets on a path on which their roots may be the same')
        if o[1][0] == 'c' and o[1] != TRUE:
            res.find('result', site0, 'different', 'union returns %s after joining two sets' % norm(o[1]))
        if len(adds) > 1:
            res.find('union-edit', adds[1][1], 'twice', 'union adds more than one arc')
        a, b = adds[0][4][:2] if len(adds[0][4]) >= 2 else (None, None)
        if {a, b} != set(R):
            res.find('not-roots', adds[0][1], '%s %s' % (norm(a), norm(b)),
                     'union links %s to %s instead of one root to the other' % (norm(a), norm(b)))
            continue
        want = lin_add(('i', SIZES, a), ('i', SIZES, b))
        got = {}
        for e in sz:
            got[e[3]] = plain(e[4])
        if not sz and any(e[0] == 'call' for e in ev if e[3] not in EDIT + ('find',)):
            continue
        if b not in got:
            res.find('size', adds[0][1], 'unchanged', 'union does not update the size of the new root')
        elif got[b] != want:
            if known_size(got[b]):
                res.find('size', [e for e in sz if e[3] == b][0][1], norm(got[b]),
                         'union sets the size of the new root to %s instead of the sum of both sizes' % norm(got[b]))
        opt = st.facts.get(('true', ('f', SELF, 'optimize')))
        if opt is not False:
            s = {x for x in diff_sign(plain_signs(st.signs), ('i', SIZES, a), ('i', SIZES, b))}
            if 1 in s:
                res.find('larger-under-smaller', adds[0][1], '%s' % sorted(s),
                         'with optimisation on union can hang the larger set under the smaller one')


def known_size(t):
    c, m = lin_parts(t)
    return all(x[0] == 'i' and x[1] == SIZES for x in m)


def find(prog, res):
    it, outs, site0 = start(prog, res, 'DisjointSet', 'find', composed(EDIT), ('call', 'set', 'del', 'mut', 'setf'))
    for st, o in outs:
        if o[0] != 'return':
            continue
        res.count('paths_checked')
        ev = list(st.events())
        flat = list(walk(ev))
        r = o[1]
        for e in flat:
            if e[0] in ('set', 'setf', 'del') and e[2] == SIZES:
                res.find('size', e[1], 'find', 'find changes the size of a set')
        if r[0] == 'r' or (r[0] == 'c' and r != NONE):
            res.count('paths_unknown')
            continue
        lead = diff_sign(plain_signs(st.signs), ('pf', 'len', ('i', NB, plain(r))), ZERO)
        emp = any((k[0] == 'empty' and v is True or k[0] == 'nonempty' and v is False) and plain(k[1]) == ('i', NB, plain(r))
                  for k, v in st.facts.items())
        if r == NONE:
            res.find('no-root', site0, 'none', 'find can return nothing')
        elif lead != {0} and not emp:
            res.find('no-root', site0, norm(r), 'find returns %s, which is not known to be a root' % norm(r))
        else:
            origin(res, it, st, ev, r, site0)
        for e in ev:
            if e[0] in ('loop', 'loopx'):
                for a in e[4]:
                    rehang(res, st, list(walk(a[0])), list(st.signs.items()) + list(a[2]), r)
        rehang(res, st, [e for e in ev if e[0] not in ('loop', 'loopx')], list(st.signs.items()), r)


def origin(res, it, st, ev, r, site0):
    """the root returned is where following successors from the item led"""
    if r == ('s', 'i'):
        return
    if r[0] != 'phi':
        res.count('paths_unknown')
        return
    loops = [e for e in ev if e[0] in ('loop', 'loopx') and e[2] == r[1]]
    if not loops:
        return
    lp = loops[0]
    for a in lp[4]:
        v = dict(a[3]).get(r[2]) if a[3] else None
        if v is None:
            continue
        v = plain(v)
        if v == r:
            continue
        base = v[1] if v[0] in ('i', 'el') else None
        if v[0] == 'i' and v[1] == ('i', NB, r):
            continue
        res.find('not-successor', lp[1], norm(v), 'find moves from a node to %s, which is not its successor' % norm(v)) \
            if v[0] == 'i' and contains(v, ('f', SELF, 'in_neighbors')) else res.count('paths_unknown')


def rehang(res, st, ev, signs, r):
    dels = [e for e in ev if e[0] == 'call' and e[3] == 'del_edge']
    adds = [e for e in ev if e[0] == 'call' and e[3] == 'add_edge']
    sg = dict(signs)
    cut = []
    for e in dels:
        x = e[4][0] if e[4] else None
        if x is None:
            return
        cut.append([pair(x)[0], pair(x)[1], e])
    for e in adds:
        if len(e[4]) < 2:
            return
        a, b = e[4][:2]
        if diff_sign(sg, b, r) != {0}:
            res.find('wrong-root', e[1], norm(b), 'path compression hangs %s under %s, which is not the root returned'
                     % (norm(a), norm(b)))
        m = [x for x in cut if diff_sign(sg, x[0], a) == {0}]
        if m:
            cut.remove(m[0])
        else:
            res.find('second-parent', e[1], norm(a), 'path compression adds an arc out of %s without removing its old one' % norm(a))
    for x in cut:
        res.find('cut-off', x[2][1], norm(x[0]), 'path compression takes %s out of its set' % norm(x[0]))


def add(prog, res):
    it, outs, site0 = start(prog, res, 'DisjointSet', 'add', composed(EDIT), ('call', 'set', 'del', 'mut', 'setf'))
    L = ('s', 'aList')
    first = ('i', L, ZERO)
    whole = lin_canon(('pf', 'len', L))
    for st, o in outs:
        if o[0] != 'return':
            continue
        res.count('paths_checked')
        ev = list(st.events())
        sz = [e for e in ev if e[0] == 'set' and e[2] == SIZES]
        calls = [e for e in walk(ev) if e[0] == 'call' and e[3] in ('add_edge', 'add_node')]
        arcs = [e for e in calls if e[3] == 'add_edge' and len(e[4]) >= 2]
        roots = {plain(e[4][1]) for e in arcs}
        top = [plain(e[4][0]) for e in ev if e[0] == 'call' and e[3] == 'add_node' and e[4]]
        if not calls and not sz:
            if diff_sign(st.signs, ('pf', 'len', L), ZERO) - {0} and not any(k[0] in ('empty', 'true') for k in st.facts):
                res.find('not-added', site0, 'nothing', 'add returns without having added the items')
            continue
        tops = set(top) | roots
        if len(tops) > 1 and all(t[0] == 'i' and t[1] == L for t in tops):
            res.find('two-roots', (arcs or calls)[0][1], ' '.join(sorted(norm(t) for t in tops)),
                     'add links the items to different nodes: %s' % ', '.join(sorted(norm(t) for t in tops)))
            continue
        if len(tops) != 1:
            res.count('paths_unknown')
            continue
        R = tops.pop()
        mine = [e for e in sz if plain(e[3]) == R]
        if not mine:
            if not any(e[0] in ('set', 'mut') and 'sizes' in norm(e[2]) for e in walk(ev)):
                res.find('size', site0, 'add', 'add does not record the size of the new set')
        else:
            v = plain(mine[-1][4])
            if v != ('pf', 'len', L) and (v[0] == 'c' or lin_parts(v)[1].get(('pf', 'len', L))):
                res.find('size', mine[-1][1], norm(v), 'add records the size %s for a set of len(aList) items' % norm(v))
        # every other item is linked
        for e in ev:
            if e[0] != 'loop' or not any(x[0] == 'call' and x[3] == 'add_edge' for x in walk(e[4][0][0] if e[4] else ())):
                continue
            s = e[3]
            if R == first:
                if s[0] == 'range' and s[1][0] == 'c' and len(s) >= 3:
                    if s[1] != ONE or plain(s[2]) != ('pf', 'len', L) or (len(s) > 3 and s[3] not in (ONE, NONE)):
                        if s[1][2] > 1 or lin_parts(plain(s[2]))[1] == {('pf', 'len', L): 1}:
                            res.find('skipped', e[1], norm(s), 'add links only the items %s' % norm(s))
                elif s[0] == 'slice' and s[1] == ('elems', L):
                    if s[2:] not in ((ONE, NONE, NONE), (ONE, ('pf', 'len', L), NONE)):
                        res.find('skipped', e[1], norm(s), 'add links only the items %s' % norm(s))


def kruskal(prog, res):
    opq = composed(('union', 'add', 'set_edge_attr', 'set_node_attr'))
    it, outs, site0 = start(prog, res, 'Graph', 'minimum_spanning_tree_kruskal', opq, ('call', 'mut', 'sort', 'set'), g='graph')
    for st, o in outs:
        if o[0] != 'return' or o[1][0] != 'o':
            continue
        res.count('paths_checked')
        out = o[1]
        ev = list(st.events())
        seen = False
        for e in ev:
            if e[0] not in ('loop', 'loopx'):
                continue
            us = [x for x in walk((e,)) if x[0] == 'call' and x[3] == 'union']
            if not us:
                addall(res, e)
                continue
            seen = True
            order(res, it, st, e)
            for a in e[4]:
                iteration(res, e, a, out)
        if not seen:
            if any(x[0] == 'call' and x[3] == 'union' for x in walk(ev)):
                res.count('paths_unknown')
            elif not st.facts:
                res.find('no-union', site0, 'kruskal', 'Kruskal never unites the ends of an edge')


def addall(res, e):
    """every node becomes a set of its own"""
    if not any(x[0] == 'call' and x[3] == 'add' for x in walk((e,))):
        return
    s = e[3]
    if s[0] == 'slice':
        res.find('node-skipped', e[1], norm(s), 'only the nodes in %s become sets' % norm(s))
    for a in e[4]:
        if a[4] is None or a[4][0] == 'continue':
            n = [x for x in walk(a[0]) if x[0] == 'call' and x[3] == 'add']
            if len(n) != 1:
                res.find('node-skipped', e[1], str(len(n)), 'a node is made a set %d times' % len(n))


def order(res, it, st, e):
    s = e[3]
    flip = 0
    while s[0] == 'rev':
        flip ^= 1
        s = s[1]
    if s[0] == 'slice':
        if s[2:] not in ((NONE, NONE, NONE), (ZERO, NONE, NONE)):
            res.find('edges-skipped', e[1], norm(s), 'Kruskal considers only some of the edges')
        return
    if s[0] == 'sorted':
        key, rv = (s[2] if len(s) > 2 else NONE), (s[3] if len(s) > 3 else FALSE)
        if (rv == TRUE) != bool(flip):
            res.find('order', e[1], 'reverse', 'Kruskal considers the edges in order of decreasing cost')
        if key == NONE and s[1][0] in ('keys', 'elems') and s[1][1] == ('f', SELF, 'edge_attr'):
            res.find('order', e[1], 'key', 'Kruskal sorts the edges by name instead of cost')
        elif key[0] == 'm' and key[2] != 'get_edge_cost':
            res.note('Kruskal sorts by %s' % norm(key))
    elif s[0] in ('keys', 'elems', 'items') and s[1] == ('f', SELF, 'edge_attr'):
        res.find('order', e[1], 'unsorted', 'Kruskal considers the edges in the order they were added')


def iteration(res, e, a, out):
    facts = dict(a[1])
    ev = list(walk(a[0]))
    us = [x for x in ev if x[0] == 'call' and x[3] == 'union']
    ap = [x for x in ev if x[0] == 'mut' and x[2] == out and x[3] in ('append', 'insert', 'extend')]
    ends = a[4] is not None and a[4][0] in ('break', 'return')
    if ends and not us:
        # stopping early: only when enough edges have been chosen
        for d, v in a[2]:
            c, m = lin_parts(d)
            if any(t[0] == 'pf' and t[1] == 'len' for t in m) and len(m) == 2:
                lo = [t for t in m if contains(t, out)]
                if not lo:
                    continue
                k = m[lo[0]]
                # k*(chosen) - k*(nodes) + c = 0 when chosen = nodes - c*k
                need = c * k
                if v == {0} and need != 1 and k in (1, -1):
                    if need > 1:
                        res.find('stops-early', e[1], str(need), 'Kruskal stops %d edges before the tree is complete' % (need - 1))
        return
    if ends and a[4][0] == 'break' and not any("'len'" in repr(d) and (v is None or 0 in v) for d, v in a[2]) and \
            not any(x[0] == 'phi' for d, v in a[2] for x in subterms(d)):
        res.find('stops-early', e[1], 'after union', 'Kruskal stops after uniting the ends of an edge although edges are left')
    if not us:
        if ap:
            res.find('selected', ap[0][1], 'no union', 'Kruskal selects an edge without uniting its ends')
        else:
            # passed over: only if the ends are known to be in one set
            if not a[1] and not a[2]:
                res.find('edges-skipped', e[1], 'no union', 'Kruskal passes over an edge without uniting its ends')
            elif not any('find' in repr(x) or 'root' in repr(x) for x in list(a[1]) + list(a[2])):
                res.count('iterations_unknown')
        return
    for u in us:
        els = [x for x in subterms(tuple(x for x in u[4] if isinstance(x, tuple))) if x[0] == 'el' and x[1] == e[2]]
        if els and len(u[4]) >= 2:
            x, y = pair(els[0])
            if set(u[4][:2]) != {x, y}:
                res.find('wrong-ends', u[1], '%s %s' % (norm(u[4][0]), norm(u[4][1])), 'Kruskal unites %s and %s instead of '
                         'the ends of the edge' % (norm(u[4][0]), norm(u[4][1])))
    if len(us) != 1:
        res.find('union-twice', us[1][1], 'union', 'Kruskal unites the ends of an edge more than once')
        return
    r = us[0][6]
    t = facts.get(('true', r))
    if t is None:
        eq = [v for k, v in a[1] if r in k]
        if ap:
            res.find('selected', ap[0][1], 'unchecked', 'Kruskal selects an edge whether or not uniting its ends succeeded')
        else:
            res.find('selected', us[0][1], 'dropped', 'Kruskal drops an edge whether or not uniting its ends succeeded')
        return
    if bool(ap) != t:
        res.find('selected', (ap or us)[0][1], str(t), 'Kruskal %s an edge whose ends %s' %
                 ('selects' if ap else 'drops', 'were already in one set' if ap else 'it has just united'))
    if len(ap) > 1:
        res.find('selected', ap[1][1], 'twice', 'Kruskal selects an edge twice')
    for x in ap:
        if x[3] == 'append' and x[4] and not any(y[0] == 'el' and y[1] == e[2] for y in subterms(x[4])):
            res.find('selected', x[1], 'other', 'Kruskal selects %s instead of the edge' % norm(x[4][0]))


def cost(prog, res):
    it, outs, site0 = start(prog, res, 'Graph', 'get_edge_cost', composed(()), (), g='graph')
    for st, o in outs:
        if o[0] != 'return':
            continue
        res.count('paths_checked')
        v = o[1]
        if v[0] == 'c' or (v[0] == 'i' and v[2][0] == 'c' and v[2] != C('cost')) or v[0] == 'lin':
            res.find('cost', site0, norm(v), 'get_edge_cost returns %s instead of the cost of the edge' % norm(v))


def jobs(prog, tier):
    yield 'union', union, ()
    yield 'find', find, ()
    yield 'add', add, ()
    yield 'kruskal', kruskal, ()
    yield 'get_edge_cost', cost, ()
