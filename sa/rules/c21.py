"""C21: tree links, levels and child slots agree."""
from .base import *
from .c18 import plain, plain_signs, diff_sign

ID = 'C21'
TECHNIQUE = 'effect and path-condition analysis of the tree operations (abstract interpretation)'
RULE = ('add_root stores level 0 and the node it added as root; add_child adds the child once with parent as recorded, its level '
        'one more than that of the parent, and one edge from parent to child; add_left/right_child add the child only '
        'on paths on which the slot of that side is known to be free, and set that slot of the parent, and no other, to the '
        'child; get_left/right_child read the slot of that side; del_node clears a slot exactly when it is known to name the '
        'node; print_nodes, printexp and postordereval handle the sides in the order asked for')
EXPLANATION = ('Every tree operation is interpreted abstractly on an arbitrary tree; add_node, add_edge and the recursive '
               'calls are kept as events. The attribute values passed and stored, and the facts known about the slots, are '
               'compared with the rule on every path that returns.')
MINIMUM = {'paths_checked': 12}
NODES = ('f', SELF, 'nodes')
S = lambda x: C(x)
OTHER = {'Rchild': 'Lchild', 'Lchild': 'Rchild'}


def attr_of(n):
    return ('f', ('i', NODES, n), 'attr')


def slot(n, a):
    return ('i', attr_of(n), S(a))


def strip(t):
    """without version and tracking marks"""
    if not isinstance(t, tuple):
        return t
    t = plain(t)
    if t[0] in ('f', 'i') and len(t) > 3:
        t = t[:3]
    return tuple(strip(x) if isinstance(x, tuple) and t[0] != 'lin' else x for x in t)


def clear(t):
    """nothing in the term is unknown to the analysis"""
    if not isinstance(t, tuple):
        return True
    if t[0] in ('r', 'phi', 'el', 'mu', 'o'):
        return False
    return all(clear(x) for x in t)


TRACK = tracking('nattr.level', 'nattr.parent', 'nattr.Rchild', 'nattr.Lchild')
KEEPK = ('call', 'set', 'del', 'mut', 'setf', 'raise', 'print', 'ecall', 'attr')


def start(prog, res, cls, meth, names, **kw):
    def hook(it, st, ev):
        if ev[0] == 'call' and ev[3] in ('add_node', 'add_child', 'add_root'):
            # what the attribute dictionary holds at this moment
            for k, v in ev[5]:
                if k in ('level', 'parent'):
                    it.emit(st, ('attr', ev[1], ev[6], k, v))
            for v in (ev[7] if len(ev) > 7 else ()):
                if not isinstance(v, tuple) or v[0] != 'o':
                    continue
                for a in ('level', 'parent'):
                    x = st.store.get(('i', v, S(a)))
                    if x is None:
                        x = current(it, st, v, S(a))
                    if x is not None:
                        it.emit(st, ('attr', ev[1], ev[6], a, x))
    kw.setdefault('tracked', TRACK)
    r = explore(prog, cls, meth, 'digraph', res=res, sink=False, hook=hook,
                keep=lambda ev: ev[0] in KEEPK, opaque=composed(names), merge=False, **kw)
    if r is None:
        raise AnalysisBroken('%s.%s' % (cls, meth))
    fm = prog.cls(cls).lookup(meth)
    return r[0], r[1], (fm.module.path, fm.node.lineno, fm.qual)


def args_of(e, names):
    a = list(e[4])
    kw = dict(e[5])
    return [a[i] if i < len(a) else kw.get(n) for i, n in enumerate(names)]


def effective(st, flat, e, n, key):
    """value of the attribute after the call and the stores that follow it, None when unknown"""
    v = None
    for x in flat:
        if x[0] == 'attr' and x[2] == e[6] and x[3] == key:
            v = x[4]
    for x in flat[flat.index(e):]:
        if x[0] == 'set' and x[3] == S(key) and strip(x[2]) in (attr_of(n), ('f', e[6], 'attr')):
            v = x[4]
    if v is None:
        return None
    v = strip(v)
    if v[0] == 'i' and v[1][0] == 'o' and v[2] == S(key) and any(
            f[0] == 'in' and f[1] == S(key) and f[2] == ('s', 'attrs') and x is True for f, x in st.facts.items()):
        return ('i', ('s', 'attrs'), S(key))        # what the caller passed wins
    return v


def add_root(prog, res, cls):
    it, outs, site0 = start(prog, res, cls, 'add_root', ('add_node', 'add_edge', 'del_node', 'del_edge'))
    n = ('s', 'root')
    for st, o in outs:
        if o[0] != 'return':
            continue
        flat = list(walk(st.events()))
        adds = [e for e in flat if e[0] == 'call' and e[3] == 'add_node']
        res.count('paths_checked')
        if not adds:
            res.find('root', site0, 'none', 'add_root does not add a node')
            continue
        e = adds[0]
        a = args_of(e, ['name'])[0]
        if a != n and a is not None and clear(a):
            res.find('root', e[1], 'name', 'add_root adds node %s' % norm(a))
        lv = effective(st, flat, e, n, 'level')
        if lv is not None and lv != ZERO and clear(lv):
            res.find('level', e[1], norm(lv), 'add_root gives the root level %s' % norm(lv))
        elif lv is None:
            res.find('level', e[1], 'none', 'add_root does not set the level of the root')
        sets = [x for x in flat if x[0] == 'setf' and x[2] == SELF and x[3] == 'root']
        if not sets:
            res.find('root-field', site0, 'unset', 'add_root does not record the root of the tree')
        else:
            v = strip(sets[-1][4])
            if v not in (strip(e[6]), ('i', NODES, n)) and clear(v):
                res.find('root-field', sets[-1][1], norm(v), 'add_root records %s as the root' % norm(v))
        for x in flat:
            if x[0] == 'call' and x[3] in ('add_edge', 'del_node', 'del_edge'):
                res.find('root', x[1], x[3], 'add_root calls %s' % x[3])


def add_child(prog, res, cls):
    it, outs, site0 = start(prog, res, cls, 'add_child', ('add_node', 'add_edge', 'del_node', 'del_edge'))
    n, p = ('s', 'n'), ('s', 'parent')
    for st, o in outs:
        if o[0] != 'return':
            continue
        flat = list(walk(st.events()))
        if st.facts.get(('in', S('level'), attr_of(p), 0)) is False:
            continue
        res.count('paths_checked')
        adds = [e for e in flat if e[0] == 'call' and e[3] == 'add_node']
        edges = [e for e in flat if e[0] == 'call' and e[3] == 'add_edge']
        if not adds:
            res.find('child', site0, 'none', 'add_child can return without adding the node')
            continue
        e = adds[0]
        a = args_of(e, ['name'])[0]
        if a != n and a is not None and clear(a):
            res.find('child', e[1], 'name', 'add_child adds node %s' % norm(a))
        if len(adds) > 1:
            res.find('child', adds[1][1], 'twice', 'add_child adds more than one node')
        pv = effective(st, flat, e, n, 'parent')
        if pv is None:
            res.find('parent', e[1], 'none', 'add_child does not record the parent')
        elif pv != p and clear(pv):
            res.find('parent', e[1], norm(pv), 'add_child records %s as the parent of the child' % norm(pv))
        lv = effective(st, flat, e, n, 'level')
        want = lin_add(slot(p, 'level'), ONE)
        if lv is None:
            res.find('level', e[1], 'none', 'add_child does not record the level')
        elif strip(lv) != strip(want):
            if clear(lv):
                res.find('level', e[1], norm(lv), 'add_child sets the level of the child to %s instead of one more than '
                         'the level of its parent' % norm(lv))
            else:
                res.count('paths_unknown')
        ends = [tuple(args_of(x, ['name1', 'name2'])) for x in edges]
        if not edges:
            res.find('edge', site0, 'none', 'add_child does not add the edge from the parent')
        elif ends[0] != (p, n) and all(clear(x) for x in ends[0] if x):
            res.find('edge', edges[0][1], '%s %s' % tuple(norm(x) for x in ends[0]),
                     'add_child adds an edge from %s to %s' % tuple(norm(x) for x in ends[0]))
        if len(edges) > 1:
            res.find('edge', edges[1][1], 'twice', 'add_child adds more than one edge')
        for x in flat:
            if x[0] == 'call' and x[3] in ('del_node', 'del_edge'):
                res.find('child', x[1], x[3], 'add_child calls %s' % x[3])
        foreign(res, flat, [n], 'add_child')


def foreign(res, flat, ok, meth, keys=('level', 'parent', 'Rchild', 'Lchild')):
    """link attributes of other nodes are left alone"""
    for x in flat:
        if x[0] == 'set' and x[3][0] == 'c' and x[3][2] in keys:
            b = strip(x[2])
            if b[0] == 'f' and b[2] == 'attr' and b[1][0] == 'i' and b[1][1] == NODES and b[1][2] not in ok and clear(b):
                res.find('foreign', x[1], '%s %s' % (norm(b[1][2]), x[3][2]),
                         '%s changes the attribute %s of node %s' % (meth, x[3][2], norm(b[1][2])))


def slot_free(st, n, a):
    """True/False/None"""
    k = slot(n, a)
    for f, v in st.facts.items():
        if f[0] == 'in' and f[1] == S(a) and strip(f[2]) == attr_of(n) and v is False:
            return True
        if f[0] == 'none' and strip(f[1]) == k:
            return v
        if f[0] == 'true' and strip(f[1]) == k and v is True:
            return False
    return None


def side(prog, res, cls, meth, a):
    it, outs, site0 = start(prog, res, cls, meth, ('add_child', 'add_node', 'add_edge', 'del_node', 'del_edge'))
    n, p = ('s', 'n'), ('s', 'parent')
    for st, o in outs:
        if o[0] != 'return':
            continue
        flat = list(walk(st.events()))
        calls = [e for e in flat if e[0] == 'call' and e[3] in ('add_child', 'add_node')]
        res.count('paths_checked')
        sets = [x for x in flat if x[0] == 'set' and x[3] in (S('Rchild'), S('Lchild'))]
        free = slot_free(st, p, a)
        if not calls:
            if not sets and free is False:
                continue
            res.find('slot', site0, 'none', '%s can return without adding the child' % meth)
            continue
        if free is None or free is False:
            res.find('overwrite', calls[0][1], a, '%s adds a child on a path on which the slot is %s' %
                     (meth, 'taken' if free is False else 'not known to be free'))
        if calls[0][3] == 'add_child':
            c, q = args_of(calls[0], ['n', 'parent'])
            if (c, q) != (n, p) and clear((c, q)):
                res.find('slot', calls[0][1], 'child', '%s adds %s as child of %s' % (meth, norm(c), norm(q)))
        mine = [x for x in sets if strip(x[2]) == attr_of(p) and x[3] == S(a)]
        for x in sets:
            if x in mine:
                continue
            if clear(strip(x[2])):
                b = strip(x[2])
                res.find('slot', x[1], x[3][2], '%s sets the %s slot of %s' % (meth, x[3][2], norm(b)))
        if not mine:
            res.find('slot', site0, 'unset', '%s does not record the child in the slot %s of the parent' % (meth, a))
        else:
            v = strip(mine[-1][4])
            if v != n and clear(v):
                res.find('slot', mine[-1][1], norm(v), '%s records %s in the slot of the parent' % (meth, norm(v)))


def reads(prog, res, cls, meth, a, kind):
    it, outs, site0 = start(prog, res, cls, meth, (), kinds={'n': kind})
    n = ('s', 'n')
    for st, o in outs:
        if o[0] != 'return':
            continue
        v = strip(o[1])
        if kind == 'Node':
            want, at = [('i', ('f', n, 'attr'), S(a))], ('f', n, 'attr')
        else:
            want, at = [slot(n, a)], attr_of(n)
        if kind != 'Node' and any(k[0] == 'inst' and v2 is True for k, v2 in st.facts.items()):
            continue
        res.count('paths_checked')
        if v in want:
            continue
        absent = any(f[0] == 'in' and f[1] == S(a) and strip(f[2]) == at and x is False for f, x in st.facts.items())
        if v == NONE:
            isnone = any(f[0] == 'none' and strip(f[1]) in want and x is True for f, x in st.facts.items())
            if not absent and not isnone:
                outside = any(f[0] == 'in' and f[1] == n and x is False for f, x in st.facts.items())
                if not outside:
                    res.find('read', site0, 'none', '%s can return None although the attribute %s is present' % (meth, a))
            continue
        if clear(v):
            res.find('read', site0, norm(v), '%s returns %s instead of the attribute %s of the node' % (meth, norm(v), a))
        else:
            res.count('paths_unknown')


def children(prog, res, cls):
    it, outs, site0 = start(prog, res, cls, 'get_children', ())
    for st, o in outs:
        if o[0] != 'return':
            continue
        res.count('paths_checked')
        v = strip(o[1])
        if v != ('i', ('f', SELF, 'neighbors'), ('s', 'n')) and clear(v) and v[0] in ('i', 'f', 'c', 's'):
            res.find('read', site0, norm(v), 'get_children returns %s instead of the successors of the node' % norm(v))


def del_node(prog, res, cls):
    it, outs, site0 = start(prog, res, cls, 'del_node', ('del_edge', 'add_node', 'add_edge'))
    n = ('s', 'n')
    p = slot(n, 'parent')
    for st, o in outs:
        if o[0] != 'return':
            continue
        if any(k[0] == 'inst' and v is True for k, v in st.facts.items()):
            continue                        # the parent attribute is a name, not a node
        if any(k[0] == 'in' and k[1] == NONE and strip(k[2]) == NODES and v is True for k, v in st.facts.items()):
            continue                        # no node is named None
        gone = False
        for f, v in st.facts.items():
            if f[0] == 'none' and strip(f[1]) == p and v is True:
                gone = True
            if f[0] == 'in' and v is False and (strip(f[1]) == p and strip(f[2]) == NODES or
                                                f[1] == NONE and strip(f[2]) == NODES or
                                                f[1] == S('parent') and strip(f[2]) == attr_of(n)):
                gone = True
            if f[0] == 'true' and strip(f[1]) == p and v is False:
                gone = True
        res.count('paths_checked')
        flat = list(walk(st.events()))
        signs = {}
        for k, v in st.signs.items():
            d, s = lin_canon(restrip(k))
            if d is not None and v is not None:
                signs[d] = frozenset(x * s for x in v) & signs.get(d, frozenset((-1, 0, 1)))
        writes = [x for x in flat if x[0] in ('set', 'del') and x[3] in (S('Rchild'), S('Lchild'))]
        writes += [x for x in flat if x[0] == 'mut' and x[3] == 'pop' and x[4] and x[4][0] in (S('Rchild'), S('Lchild'))]
        cleared = set()
        understood = True
        for x in writes:
            key = x[4][0] if x[0] == 'mut' else x[3]
            b = strip(x[2])
            if not clear(b):
                understood = False
                continue
            if b != attr_of(p):
                if b == attr_of(n):
                    continue
                res.find('foreign', x[1], norm(b), 'del_node changes the slot %s of %s' % (key[2], norm(b)))
                continue
            if x[0] == 'set' and x[4] != NONE:
                res.find('slot', x[1], norm(x[4]), 'del_node sets the slot %s of the parent to %s' % (key[2], norm(x[4])))
                continue
            cleared.add(key[2])
            if 1 in sign(signs, slot(p, key[2]), n) or -1 in sign(signs, slot(p, key[2]), n):
                res.find('slot', x[1], key[2], 'del_node clears the slot %s of the parent although it may name another node'
                         % key[2])
        if gone or cleared or not understood:
            continue
        for a in ('Rchild', 'Lchild'):
            absent = any(f[0] == 'in' and f[1] == S(a) and strip(f[2]) == attr_of(p) and v is False
                         for f, v in st.facts.items()) or slot_free(st, p, a) is True
            if not absent and 0 in sign(signs, slot(p, a), n):
                res.find('slot', site0, 'kept ' + a, 'del_node can leave the slot %s of the parent naming the deleted node' % a)


def restrip(t):
    if isinstance(t, tuple) and t and t[0] == 'lin':
        r = C(t[1])
        for k, v in t[2]:
            r = lin_add(r, lin_scale(restrip(k), v))
        return r
    return strip(t)


def sign(signs, a, b):
    return diff_sign(signs, a, b)


ROOTS = ('Lchild', 'Rchild')


def holder(t):
    """(slot, node) when the term is a slot of some node"""
    t = strip(t)
    if t[0] == 'i' and t[2] in (S('Lchild'), S('Rchild')):
        return t[2][2]
    return None


def order(prog, res, cls, meth, o_, prio):
    terms = {'display': FALSE}
    if o_:
        terms.update(order=S(o_), priority=S(prio))
    it, outs, site0 = start(prog, res, cls, meth, (meth, 'display'), terms=terms)
    first, second = ('Lchild', 'Rchild') if prio == 'L' else ('Rchild', 'Lchild')
    want = {'pre': ['P', first, second], 'in': [first, 'P', second], 'post': [first, second, 'P']}[o_ or 'in']
    for st, o in outs:
        if o[0] != 'return':
            continue
        seq = []
        bad = False
        for e in walk(st.events()):
            if e[0] == 'call' and e[3] == meth:
                a = dict(e[5]).get('root') or (e[4][-1] if e[4] else None)
                h = holder(a) if a is not None else None
                if h is None:
                    bad = True
                    break
                seq.append((h, e))
            elif e[0] == 'print' and len(e[2]) == 1 and strip(e[2][0])[0] != 'c' and meth != 'postordereval':
                seq.append(('P', e))
        if bad:
            res.count('paths_unknown')
            continue
        res.count('paths_checked')
        got_ = [h for h, e in seq]
        i = [want.index(h) for h in got_]
        if i != sorted(i) or len(set(i)) != len(i):
            e = seq[-1][1]
            res.find('order', e[1], '%s %s %s' % (meth, o_, prio), '%s handles %s, expected %s' %
                     (meth, ', '.join(got_), ', '.join(want)))
            continue
        if meth != 'postordereval' and 'P' not in got_:
            res.find('order', site0, 'unprinted', '%s does not print the node itself' % meth)
        for a in ROOTS:
            if a in got_:
                continue
            if any(k[0] == 'inst' and v is True and k[1] == ('s', 'root') for k, v in st.facts.items()):
                break
            known = [v for f, v in st.facts.items() if (f[0] == 'none' and holder(f[1]) == a and v is True) or
                     (f[0] == 'in' and f[1] == S(a) and v is False) or (f[0] == 'true' and holder(f[1]) == a and v is False)]
            if not known and not any(k[0] == 'in' and v is False and strip(k[2]) == NODES for k, v in st.facts.items()):
                res.find('order', site0, 'skipped ' + a, '%s does not visit the child in slot %s' % (meth, a))
        if meth == 'postordereval':
            sides = {}
            for h, e in seq:
                sides[e[6][-1]] = h
            for e in walk(st.events()):
                if e[0] == 'ecall' and len(e[4]) == 2 and len(sides) == 2 and all(x[:2] == ('r', 'rec') and x[-1] in sides for x in e[4]):
                    if sides[e[4][0][-1]] == 'Rchild' and sides[e[4][1][-1]] == 'Lchild':
                        res.find('order', e[1], 'operands', 'postordereval uses the right child as the left operand')


def jobs(prog, tier):
    for c in ('Tree', 'BinaryTree'):
        yield c + '.add_root', add_root, (c,)
        yield c + '.add_child', add_child, (c,)
        yield c + '.get_children', children, (c,)
        yield c + '.get_parent', reads, (c, 'get_parent', 'parent', 'name')
    b = 'BinaryTree'
    yield 'add_right_child', side, (b, 'add_right_child', 'Rchild')
    yield 'add_left_child', side, (b, 'add_left_child', 'Lchild')
    for k in ('name', 'Node'):
        yield 'get_right_child/' + k, reads, (b, 'get_right_child', 'Rchild', k)
        yield 'get_left_child/' + k, reads, (b, 'get_left_child', 'Lchild', k)
    yield 'del_node', del_node, (b,)
    for o in ('pre', 'in', 'post'):
        for p in ('L', 'R'):
            yield 'print_nodes/%s/%s' % (o, p), order, (b, 'print_nodes', o, p)
    yield 'printexp', order, (b, 'printexp', None, 'L')
    yield 'postordereval', order, (b, 'postordereval', None, 'L')
